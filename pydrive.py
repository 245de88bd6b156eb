"""Drives the qirrunner Python package through random histories of calls and judges every one.

  pydrive.py PACKAGE_DIR CASE_DIR EXE SEED STEPS REPORT

CASE_DIR holds modules written by `harness py-cases` with what the runner library makes of them. A history mixes calls
with and without callbacks, refused inputs, raising callbacks, threads and the command line entry, all in one process.
"""
import os
import random
import subprocess
import sys
import threading
import time
import traceback
from pathlib import Path

pkg, cases_dir, exe, seed, steps, report = sys.argv[1:7]
seed, steps = int(seed), int(steps)
sys.path.insert(0, pkg)
sys.dont_write_bytecode = True
import qirrunner  # noqa: E402
from qirrunner import Output, OutputHandler, _native, run, run_bytes  # noqa: E402

D = Path(cases_dir)
REP = open(report, "w")
COUNT = {}


class Bad(Exception):
    pass


def count(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


class Case:
    def __init__(self, line):
        i, e, s, r, k, v = line.split("\t")
        self.id = i
        self.entry = None if e == "-" else bytes.fromhex(e[1:]).decode()
        self.shots, self.seed = int(s), int(r)
        self.ok = k == "ok"
        self.want = bytes.fromhex(v) if self.ok else bytes.fromhex(v).decode(errors="replace")
        self.ll = D / f"{i}.ll"
        self.bc = D / f"{i}.bc"
        self.text = self.ll.read_bytes()
        self.forms = [self.ll] + ([self.bc] if self.bc.exists() else [])

    def __str__(self):
        return f"module {self.id} (entry {self.entry!r}, {self.shots} shots, seed {self.seed})"


CASES = [Case(ln) for ln in (D / "index").read_text().split("\n") if ln]
GOOD = [c for c in CASES if c.ok]
BAD = [c for c in CASES if not c.ok]


class Stdout:
    """what reaches the process's standard output"""

    def __enter__(self):
        sys.stdout.flush()
        self.keep = os.dup(1)
        self.f = os.open(report + ".stdout", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(self.f, 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.keep, 1)
        os.close(self.keep)
        n = os.lseek(self.f, 0, os.SEEK_END)
        os.lseek(self.f, 0, os.SEEK_SET)
        self.text = b""
        while len(self.text) < n:
            self.text += os.read(self.f, n)
        os.close(self.f)


class Rec:
    """a callback: records the pieces, optionally gives other threads a turn or raises"""

    def __init__(self, r, fail_at=None, yields=False):
        self.pieces, self.fail_at, self.yields, self.r = [], fail_at, yields, r
        self.thread = threading.get_ident()
        self.wrong = None
        self.exc = None

    def __call__(self, *a, **k):
        if len(a) != 1 or k or type(a[0]) is not Output:
            self.wrong = f"callback called with {a!r} {k!r}"
        if threading.get_ident() != self.thread:
            self.wrong = "callback called on another thread"
        s = str(a[0])
        if repr(a[0]) != s or a[0]._repr_html_() != f"<p>{s}</p>":
            self.wrong = f"the forms of an Output differ: {s!r} {a[0]!r} {a[0]._repr_html_()!r}"
        if self.exc is not None:
            self.wrong = f"callback called again after it had raised: {s!r}"
        if self.fail_at is not None and len(self.pieces) == self.fail_at:
            self.exc = f"raised at piece {self.fail_at}"
            # no reference to the Output may survive in the traceback: Outputs belong to their thread
            del a, s
            raise self.r.choice([ValueError, KeyError, RuntimeError, OSError, ZeroDivisionError])(self.exc)
        self.pieces.append(s)
        if self.yields:
            time.sleep(self.r.choice([0, 0, 0.0002]))
        return self.r.choice([None, 0, "x", False])

    def text(self):
        return "".join(self.pieces).encode()


def diff(got, want):
    g, w = got.split(b"\n"), want.split(b"\n")
    for i in range(max(len(g), len(w))):
        a, b = (x[i] if i < len(x) else None for x in (g, w))
        if a != b:
            return f"line {i}: {a!r}, expected {b!r}"
    return "no difference"


def invoke(r, c, cb, whole=True):
    """calls run or run_bytes for this case, with arguments passed in some way; returns how"""
    vals = {"entry_point": c.entry, "shots": c.shots, "rng_seed": c.seed, "output_fn": cb}
    order = ["entry_point", "shots", "rng_seed", "output_fn"]
    npos = r.randrange(5)
    pos = [vals[k] for k in order[:npos]]
    kw = {k: vals[k] for k in order[npos:] if not (vals[k] is None and r.random() < 0.5) and not (k == "shots" and c.shots == 1 and r.random() < 0.5)}
    if r.random() < 0.5:
        f = r.choice(c.forms)
        first, name, fn = str(f), "path", run
        how = f"run({f.suffix})"
        if r.random() < 0.2:
            first = os.path.relpath(first)
    else:
        f = r.choice(c.forms)
        first, name, fn = f.read_bytes(), "bytes", run_bytes
        how = f"run_bytes({f.suffix})"
        if r.random() < 0.1:
            first = bytearray(first)
    if npos == 0 and r.random() < 0.3:
        kw[name] = first
        args = ()
    else:
        args = (first, *pos)
    try:
        res = fn(*args, **kw)
    finally:
        count(f"{fn.__name__}_calls")
    if res is not None:
        raise Bad(f"{how} returned {res!r}")
    return how


def judge_good(r, c, mode=None):
    mode = mode or r.choice(["callback", "callback", "handler", "stdout", "main", "raise"])
    if mode in ("callback", "handler"):
        rec = Rec(r)
        h = OutputHandler()

        def both(o):
            h.handle(o)
            rec(o)

        cb = rec if mode == "callback" else both
        with Stdout() as so:
            how = invoke(r, c, cb)
        if rec.wrong:
            raise Bad(f"{how} of {c}: {rec.wrong}")
        if rec.text() != c.want:
            raise Bad(f"{how} of {c} delivers to the callback something else than the runner prints: {diff(rec.text(), c.want)}")
        if mode == "handler" and h.get_output().encode() != c.want:
            raise Bad(f"{how} of {c}: OutputHandler holds something else than the runner prints: {diff(h.get_output().encode(), c.want)}")
        if so.text:
            raise Bad(f"{how} of {c} with a callback writes to standard output: {so.text[:200]!r}")
        count("pieces_delivered", len(rec.pieces))
        count("bytes_delivered", sum(len(p) for p in rec.pieces))
    elif mode == "stdout":
        with Stdout() as so:
            how = invoke(r, c, None)
        if so.text != c.want:
            raise Bad(f"{how} of {c} without a callback prints something else than the runner: {diff(so.text, c.want)}")
    elif mode == "main":
        args = main_args(r, c)
        with Stdout() as so:
            _native.main(args) if r.random() < 0.7 else _native.main(args=args)
        if so.text != c.want:
            raise Bad(f"main({args}) of {c} prints something else than the runner: {diff(so.text, c.want)}")
    else:
        # a raising callback: the call raises, nothing follows, the next run is unaffected
        whole = Rec(r)
        invoke(r, c, whole)
        if whole.text() != c.want:
            raise Bad(f"{c} delivers something else than the runner prints: {diff(whole.text(), c.want)}")
        if not whole.pieces:
            return
        k = r.randrange(len(whole.pieces))
        rec = Rec(r, fail_at=k)
        err = None
        with Stdout() as so:
            try:
                invoke(r, c, rec)
            except Bad:
                raise
            except BaseException as e:
                err = str(e)
                e = None
        if err is None:
            raise Bad(f"{c}: the callback raised at piece {k} but the call returned normally")
        if str(rec.exc) not in err:
            raise Bad(f"{c}: the callback raised {rec.exc!r} at piece {k} but the call raised {err!r}")
        if rec.wrong:
            raise Bad(f"{c}: {rec.wrong}")
        if not whole.text().startswith(rec.text()) or len(rec.pieces) != k or so.text:
            raise Bad(f"{c}: before raising at piece {k} the callback saw {rec.pieces[-3:]!r}; standard output {so.text[:100]!r}")
        count("callbacks_raised")
        judge_good(r, r.choice(GOOD), "callback")
    count(f"mode_{mode}")


def main_args(r, c):
    f = r.choice(c.forms)
    a = ["qir-runner"]
    parts = [[r.choice(["-f", "--file"]), str(f)], [r.choice(["-r", "--rngseed"]), str(c.seed)]]
    if c.shots != 1 or r.random() < 0.5:
        parts.append([r.choice(["-s", "--shots"]), str(c.shots)])
    if c.entry is not None:
        parts.append([r.choice(["-e", "--entrypoint"]), c.entry])
    r.shuffle(parts)
    return a + [x for p in parts for x in p]


def judge_bad(r, c):
    rec = Rec(r)
    how = r.randrange(4)
    with Stdout() as so:
        try:
            if how == 0:
                run_bytes(c.text, c.entry, c.shots, c.seed, rec)
            elif how == 1:
                run(str(r.choice(c.forms)), c.entry, c.shots, c.seed, rec)
            elif how == 2:
                run_bytes(c.text, entry_point=c.entry, shots=c.shots, rng_seed=c.seed)
            else:
                _native.main(main_args(r, c))
            raise Bad(f"{c}: the runner refuses it ({c.want[:200]!r}) but the Python call succeeds")
        except RuntimeError as e:
            msg = str(e)
    if not msg.strip():
        raise Bad(f"{c}: refused with an empty message")
    if how in (0, 2) and msg != c.want:
        raise Bad(f"{c}: refused with {msg[:300]!r}, the runner says {c.want[:300]!r}")
    if rec.pieces or so.text:
        raise Bad(f"{c} is refused, yet output appears: {rec.pieces[:3]!r} {so.text[:100]!r}")
    count("refusals_judged")
    judge_good(r, r.choice(GOOD))


def judge_args(r):
    """inputs refused before anything runs"""
    c = r.choice(GOOD)
    rec = Rec(r)
    p = str(c.ll)
    table = [
        (RuntimeError, lambda: run(str(D / "missing.ll"), output_fn=rec)),
        (RuntimeError, lambda: run(str(D / "index"), output_fn=rec)),
        (RuntimeError, lambda: run("", output_fn=rec)),
        (RuntimeError, lambda: run_bytes(b"", output_fn=rec)),
        (RuntimeError, lambda: run_bytes(b"; x"[: r.randrange(1, 4)], output_fn=rec)),
        (RuntimeError, lambda: run_bytes(bytes(r.randrange(256) for _ in range(50)), output_fn=rec)),
        (RuntimeError, lambda: run(p, "no such entry", output_fn=rec)),
        (RuntimeError, lambda: _native.main(["qir-runner", "-f", p, "-s", "x"])),
        (RuntimeError, lambda: _native.main(["qir-runner", "-f", p, "-s", "-1"])),
        (RuntimeError, lambda: _native.main(["qir-runner", "-f", p, "--nope"])),
        (RuntimeError, lambda: _native.main(["qir-runner", "-f", p, "-e", "no such entry"])),
        (TypeError, lambda: run()),
        (TypeError, lambda: run_bytes()),
        (TypeError, lambda: run(None, output_fn=rec)),
        (TypeError, lambda: run_bytes(None, output_fn=rec)),
        (TypeError, lambda: run_bytes("text", output_fn=rec)),
        (TypeError, lambda: run(p, shots="2", output_fn=rec)),
        (TypeError, lambda: run(p, entry_point=3, output_fn=rec)),
        (OverflowError, lambda: run(p, shots=-1, output_fn=rec)),
        (OverflowError, lambda: run(p, shots=2**32, output_fn=rec)),
        (OverflowError, lambda: run(p, rng_seed=-1, output_fn=rec)),
        (OverflowError, lambda: run(p, rng_seed=2**64, output_fn=rec)),
        (TypeError, lambda: run(p, seed=1, output_fn=rec)),
    ]
    k = r.randrange(len(table))
    exc, f = table[k]
    with Stdout() as so:
        try:
            f()
            raise Bad(f"bad call number {k} succeeds")
        except exc as e:
            if exc is RuntimeError and not str(e).strip():
                raise Bad(f"bad call number {k}: empty message")
    if rec.pieces or so.text:
        raise Bad(f"bad call number {k}: output appears: {rec.pieces[:3]!r} {so.text[:100]!r}")
    count("refusals_judged")
    judge_good(r, c)


def judge_threads(r):
    """several threads, taking turns at callbacks; every one sees its own program's output"""
    n = r.randrange(2, 5)
    todo = [[r.choice(GOOD) for _ in range(r.randrange(1, 4))] for _ in range(n)]
    rs = [random.Random(r.getrandbits(64)) for _ in range(n)]
    errs = []

    def work(i):
        try:
            for c in todo[i]:
                rec = Rec(rs[i], yields=True)
                how = invoke(rs[i], c, rec)
                if rec.wrong:
                    raise Bad(f"{how} of {c}: {rec.wrong}")
                if rec.text() != c.want:
                    raise Bad(f"{how} of {c} in thread {i} of {n}: {diff(rec.text(), c.want)}")
                count("thread_runs")
        except BaseException as e:
            errs.append(e if isinstance(e, Bad) else Bad(f"thread {i}: {type(e).__name__}: {e}"))

    with Stdout() as so:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if errs:
        raise errs[0]
    if so.text:
        raise Bad(f"threads with callbacks write to standard output: {so.text[:200]!r}")
    count("thread_histories")


def judge_nested(r):
    """a callback that itself runs a program: both runs see their own output"""
    c, inner = r.choice(GOOD), r.choice(GOOD)
    whole = Rec(r)
    invoke(r, c, whole)
    if not whole.pieces:
        return
    k = r.randrange(len(whole.pieces))
    mode = r.choice(["callback", "callback", "stdout", "main", "refused"] if BAD else ["callback", "stdout", "main"])
    refused = r.choice(BAD) if mode == "refused" else None
    out, rec, raised = [], Rec(r), []

    def cb(o):
        out.append(str(o))
        if len(out) != k + 1:
            return
        if mode == "callback":
            invoke(r, inner, rec)
        elif mode == "stdout":
            invoke(r, inner, None)
        elif mode == "main":
            _native.main(main_args(r, inner))
        else:
            try:
                invoke(r, refused, None)
            except RuntimeError as e:
                raised.append(str(e))

    with Stdout() as so:
        invoke(r, c, cb)
    what = f"{refused or inner}, run ({mode}) from a callback at piece {k} of {c}"
    got = rec.text() if mode == "callback" else so.text
    if rec.wrong or got != (b"" if refused else inner.want):
        raise Bad(f"{what}: {rec.wrong or diff(got, b'' if refused else inner.want)}")
    if mode == "callback" and so.text:
        raise Bad(f"{what} prints to standard output: {so.text[:200]!r}")
    if refused and not raised:
        raise Bad(f"{what} was not refused")
    # random outcomes drawn after the inner run may differ; everything up to it, and the frame of every shot, may not
    text = "".join(out)
    if out[: k + 1] != whole.pieces[: k + 1] or text.count("END\t0\n") != c.want.count(b"END\t0\n"):
        raise Bad(f"{c}, whose callback runs {inner} at piece {k}: {diff(text.encode(), c.want)}")
    count("nested_runs")
    count(f"nested_{mode}")


def judge_script(r):
    """the console script of the package against the runner's own executable"""
    c = r.choice(CASES)
    a = main_args(r, c)[1:]
    inp = None
    if r.random() < 0.4:
        i = a.index("-f") if "-f" in a else a.index("--file")
        inp = Path(a[i + 1]).read_bytes()
        if r.random() < 0.5:
            a = a[:i] + a[i + 2 :]
        else:
            a[i + 1] = "-"
    kw = dict(input=inp) if inp is not None else dict(stdin=subprocess.DEVNULL)
    p = subprocess.run([sys.executable, str(Path(pkg) / "qir-runner"), *a], capture_output=True, **kw)
    q = subprocess.run([exe, *a], capture_output=True, **kw)
    count("scripts_compared")
    if p.stdout != q.stdout:
        raise Bad(f"the script {a} prints something else than the runner: {diff(p.stdout, q.stdout)}")
    if (p.returncode == 0) != (q.returncode == 0):
        raise Bad(f"the script {a} ends with {p.returncode}, the runner with {q.returncode}: {p.stderr[-300:]!r} {q.stderr[-300:]!r}")
    if p.returncode and b"RuntimeError" not in p.stderr:
        raise Bad(f"the script {a} fails with something else than a RuntimeError: {p.stderr[-300:]!r}")
    if c.ok and q.stdout != c.want:
        raise Bad(f"the runner's executable differs from its library on {c}: {diff(q.stdout, c.want)}")


def judge_defaults(r):
    """left-out arguments: one shot, the marked entry point, fresh randomness"""
    c = r.choice(GOOD)
    h = OutputHandler()
    kw = {} if c.entry is None else {"entry_point": c.entry}
    run(str(c.ll), output_fn=h.handle, **kw)
    out = h.get_output()
    if out.count("START\n") < 1 or not out.endswith("END\t0\n") or out.count("END\t0\n") != 1:
        raise Bad(f"{c} without a shot count is not run exactly once: {out[:200]!r} ... {out[-100:]!r}")
    h1, h2 = OutputHandler(), OutputHandler()
    run(str(c.ll), shots=1, rng_seed=c.seed, output_fn=h1.handle, **kw)
    run_bytes(c.text, rng_seed=c.seed, output_fn=h2.handle, **kw)
    if h1.get_output() != h2.get_output() or (c.shots > 0 and not c.want.startswith(h1.get_output().encode())):
        raise Bad(f"{c}: one shot by default differs from one shot by request")
    count("defaults_judged")


def step(k):
    r = random.Random(f"{seed} {k}")
    x = r.random()
    if x < 0.5:
        what = "good"
        judge_good(r, r.choice(GOOD))
    elif x < 0.65 and BAD:
        what = "bad"
        judge_bad(r, r.choice(BAD))
    elif x < 0.75:
        what = "args"
        judge_args(r)
    elif x < 0.8:
        what = "nested"
        judge_nested(r)
    elif x < 0.86:
        what = "threads"
        judge_threads(r)
    elif x < 0.89:
        what = "script"
        judge_script(r)
    else:
        what = "defaults"
        judge_defaults(r)
    return what


def main():
    if not GOOD:
        print("no case", file=sys.stderr)
        return 3
    last = ["start"]
    for k in range(steps):
        (Path(report + ".step")).write_text(str(k))
        try:
            w = step(k)
        except Bad as e:
            REP.write(f"bad\t{k}\t{str(e)!r}\n")
            REP.flush()
            return 0
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            REP.write(f"bad\t{k}\t{f'an unexpected {type(e).__name__} at line {tb.lineno} of the driver: {e}'!r}\n")
            REP.flush()
            return 0
        last = [*last[-2:], w]
        REP.write(f"ctx\t{' '.join(last)}\n")
        count("steps")
    for k, v in sorted(COUNT.items()):
        REP.write(f"count\t{k}\t{v}\n")
    REP.write(f"sample\t{len(GOOD)} modules run, {len(BAD)} refused by the library, {steps} steps\n")
    REP.write("done\n")
    REP.flush()
    return 0


sys.exit(main())
