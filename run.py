#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py <ID>                 run one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py setup                build every flavour the checks need
  run.py replay <file> [fl]   re-execute a recorded case

Builds the harness against /repo's current working tree, runs its shards under the chosen
instrumentation, merges what the monitors observed, writes evidence/<ID>.json.
Exit 0: held on everything explored. 1: VIOLATION lines. 2: the check itself could not run.
"""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from checks import CHECKS  # noqa: E402

ROOT = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
OUT = ROOT / "out"
BUILD = OUT / "build"
HARNESS = ROOT / "harness"
TRIPLE = "x86_64-unknown-linux-gnu"
REPO_CRATES = ["backend", "stdlib", "sparsesim", "runner"]


def log(*a):
    print(*a, flush=True)


def source_hash():
    h = hashlib.sha256()
    for c in REPO_CRATES + ["."]:
        base = REPO / c
        files = []
        if c == ".":
            files = [base / "Cargo.toml", base / "Cargo.lock"]
        else:
            files = [p for p in base.rglob("*") if p.is_file() and "target" not in p.parts]
        for f in sorted(files):
            if f.exists():
                h.update(str(f.relative_to(REPO)).encode() + b"\0")
                h.update(f.read_bytes())
    for f in sorted((HARNESS / "src").rglob("*.rs")) + [HARNESS / "Cargo.toml"]:
        h.update(f.read_bytes())
    return h.hexdigest()


class BuildError(Exception):
    pass


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


def build(flavour):
    """Builds one flavour of the harness; returns the path of the binary."""
    if flavour == "runner":
        import runner_build

        return runner_build.build(REPO, ROOT, BUILD / "runner", BuildError)
    td = BUILD / flavour
    td.mkdir(parents=True, exist_ok=True)
    stamp = td / ".source-hash"
    want = source_hash()
    env = {}
    base = ["cargo"]
    args = ["--offline", "--manifest-path", str(HARNESS / "Cargo.toml"), "--target-dir", str(td)]
    outdir = td / "debug"
    if flavour in ("asan", "tsan"):
        base = ["cargo", "+nightly"]
        env["RUSTFLAGS"] = "-Zsanitizer=" + {"asan": "address", "tsan": "thread"}[flavour]
        args += ["--target", TRIPLE]
        if flavour == "asan":
            # as released: arithmetic wraps, debug assertions are off (the other flavours have both on)
            env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
        if flavour == "tsan":
            args += ["-Zbuild-std"]
        outdir = td / TRIPLE / "debug"
    if stamp.exists() and stamp.read_text() != want:
        # sources changed: never trust time stamps of a copied tree
        for p in ("qir-backend", "qir-stdlib", "quantum-sparse-sim", "harness"):
            subprocess.run(
                base + ["clean", "--offline", "--manifest-path", str(HARNESS / "Cargo.toml"), "--target-dir", str(td), "-p", p]
                + (["--target", TRIPLE] if flavour in ("asan", "tsan") else []),
                env=cargo_env(env), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )
    r = subprocess.run(base + ["build"] + args, env=cargo_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"build of flavour {flavour} failed:\n{r.stdout[-6000:]}")
    stamp.write_text(want)
    return outdir / "harness"


def limits(gb):
    def f():
        os.setsid()
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1", "LSAN_OPTIONS": "exitcode=78"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"},
}
SAN_PAT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|SUMMARY: \w+Sanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*)")


class Merge:
    def __init__(self):
        self.counters = {}
        self.maxes = {}
        self.samples = []
        self.hashes = set()
        self.viols = []  # (replay path, message)
        self.errors = []
        self.legs = {}


def unesc(s):
    return s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\\\", "\\")


def read_result(m, f):
    done = False
    if not f.exists():
        return False
    for line in f.read_text(errors="replace").split("\n"):
        p = line.split("\t")
        if p[0] == "counter":
            m.counters[p[1]] = m.counters.get(p[1], 0) + int(p[2])
        elif p[0] == "max":
            m.maxes[p[1]] = max(m.maxes.get(p[1], float("-inf")), float(p[2]))
        elif p[0] == "sample":
            m.samples.append(unesc(p[1]))
        elif p[0] == "viol":
            m.viols.append((Path(p[1]), unesc(p[2])))
        elif p[0] == "done":
            done = True
    hf = f.with_suffix(".hashes")
    if hf.exists():
        b = hf.read_bytes()
        m.hashes.update(b[i : i + 8] for i in range(0, len(b), 8))
    return done


def run_leg(m, pid, leg, tier, seed, work):
    fl = leg["flavour"]
    t0 = time.time()
    exe = build(fl)
    tb = time.time() - t0
    shards = leg.get("shards", 8)
    soft = leg.get("soft", 40) * (10 if tier == "thorough" else 1)
    hard = soft + 300
    scale = leg.get("scale", 1.0)
    if tier == "thorough":
        scale *= leg.get("thorough", 1.0)
    procs = []
    env = dict(os.environ)
    env.pop("RUST_BACKTRACE", None)
    env.update(SAN_ENV.get(fl, {}))
    env.update(leg.get("env", {}))
    t0 = time.time()
    for s in range(shards):
        out = work / f"{fl}.{s}.out"
        err = work / f"{fl}.{s}.err"
        cmd = [str(exe), "check", pid, "--seed", str(seed), "--tier", tier, "--shard", str(s), "--shards", str(shards),
               "--flavour", fl, "--work", str(work), "--out", str(out), "--soft", str(soft), "--scale", str(scale)]
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=open(work / f"{fl}.{s}.stdout", "wb"), stderr=open(err, "wb"),
                             env=env, cwd=str(work), preexec_fn=limits(0 if fl in ("asan", "tsan") else 8))
        procs.append((s, p, out, err))
    for s, p, out, err in procs:
        left = max(1, hard - (time.time() - t0))
        timed_out = False
        try:
            rc = p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
        done = read_result(m, out)
        text = err.read_text(errors="replace")
        journal = work / f"journal.{fl}.{s}"
        san = SAN_PAT.findall(text)
        if rc == 0 and done:
            continue
        tail = text[-3000:]
        if san and not (fl == "normal"):
            rep = work / f"sanitizer.{fl}.{s}.replay"
            head = journal.read_text(errors="replace") if journal.exists() else f"#property {pid}\n#kind none\n"
            i = text.find(san[0])
            rep.write_text(head.rstrip("\n") + "\n" + "".join(f"#report {ln}\n" for ln in text[max(0, i - 200) : i + 6000].split("\n")))
            m.viols.append((rep, f"{san[0]} (instrumented run, flavour {fl}); {san[-1]}"))
        elif journal.exists():
            why = "did not finish: no progress" if timed_out else (f"died with signal {signal.Signals(-rc).name}" if rc < 0 else f"ended with exit code {rc}")
            if timed_out and time.time() - journal.stat().st_mtime < 120:
                m.errors.append(f"shard {s} ({fl}) ran out of time")
                continue
            if rc in (-9,) and not timed_out:
                m.errors.append(f"shard {s} ({fl}) was killed from outside")
                continue
            rep = work / f"crash.{fl}.{s}.replay"
            rep.write_text(journal.read_text(errors="replace"))
            m.viols.append((rep, f"the process executing this case {why}: {tail[-1500:]}"))
        else:
            m.errors.append(f"shard {s} ({fl}) ended with code {rc}{' after a timeout' if timed_out else ''} outside any case: {tail[-1500:]}")
    m.legs[fl] = {"shards": shards, "build_s": round(tb, 1), "run_s": round(time.time() - t0, 1)}


def load_findings(pid):
    f = ROOT / "KNOWN_FINDINGS.txt"
    out = []
    if f.exists():
        for line in f.read_text().split("\n"):
            mm = re.match(r"finding:\s+property=(\S+)\s+match=/(.*?)/\s+(.*)", line)
            if mm and mm.group(1) == pid:
                out.append((re.compile(mm.group(2), re.S), mm.group(3)))
    return out


def check(pid):
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = OUT / "work" / pid
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    m = Merge()
    try:
        for leg in cfg["legs"]:
            if leg.get("only") and leg["only"] != tier:
                continue
            if any(not any(rx.search(msg) for rx, _ in load_findings(pid)) for _, msg in m.viols):
                break  # the verdict is settled
            if "py" in leg:
                mod = __import__(leg["py"])
                tl = time.time()
                mod.run(m, pid, leg, tier, seed, work, sys.modules[__name__])
                m.legs[leg.get("name", leg["py"])] = {"run_s": round(time.time() - tl, 1)}
            else:
                run_leg(m, pid, leg, tier, seed, work)
    except BuildError as e:
        log(str(e))
        return 2
    # minimum observation: a run whose monitors saw next to nothing proves nothing
    ev = sum(m.counters.get(c, 0) for c in cfg["evaluations"])
    if not m.viols:
        for c, least in cfg.get("at_least", {}).items():
            if m.counters.get(c, 0) < least:
                m.errors.append(f"the monitors observed only {m.counters.get(c, 0)} {c}, expected at least {least}")
    known = load_findings(pid)
    new, old = [], []
    for path, msg in m.viols:
        for rx, desc in known:
            if rx.search(msg):
                old.append(desc)
                break
        else:
            new.append((path, msg))
    rdir = OUT / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    lines = []
    recorded = []
    for i, (path, msg) in enumerate(new[:20]):
        dst = rdir / f"{pid}-{i}.replay"
        try:
            shutil.copyfile(path, dst)
        except OSError:
            dst.write_text(f"#property {pid}\n#kind none\n" + "".join(f"#message {x}\n" for x in msg.split("\n")))
        lines.append(f"VIOLATION property={pid} replay={dst}")
        recorded.append({"replay": str(dst), "message": msg[:1500]})
        log(f"[{pid}] {msg[:1500]}")
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(m.hashes),
        "rule": cfg["rule"],
        "samples": m.samples[:6] or ["(none recorded)"],
        "observed": dict(sorted(m.counters.items())),
        "maxima": {k: v for k, v in sorted(m.maxes.items()) if v != float("-inf")},
        "legs": m.legs,
    }
    evd = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(recorded),
        "violation_details": recorded,
        "known_findings": sorted(set(old)),
        "errors": m.errors,
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    tmp = ROOT / "evidence" / f".{pid}.json.tmp"
    tmp.write_text(json.dumps(evd, indent=1))
    tmp.replace(ROOT / "evidence" / f"{pid}.json")
    for d in sorted(set(old)):
        log(f"KNOWN-FINDING: property={pid} {d}")
    for ln in lines:
        log(ln)
    log(f"[{pid}] {tier} seed {seed}: {ev} evaluations, {len(m.hashes)} distinct, {len(new)} violation(s), {time.time() - t0:.1f} s")
    if not m.viols and not m.errors:
        shutil.rmtree(work, ignore_errors=True)
    if lines:
        return 1
    if m.errors:
        for e in m.errors[:10]:
            log(f"[{pid}] ERROR {e}")
        return 2
    return 0


def setup():
    fls = []
    for c in CHECKS.values():
        for leg in c["legs"]:
            f = leg.get("flavour")
            if f and f not in fls:
                fls.append(f)
            if leg.get("py") == "py_leg":
                import py_leg

                try:
                    py_leg.prepare(sys.modules[__name__])
                except BuildError as e:
                    log(str(e))
                    return 2
    for f in fls:
        t0 = time.time()
        try:
            build(f)
        except BuildError as e:
            log(str(e))
            return 2
        log(f"built flavour {f} in {time.time() - t0:.1f} s")
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "replay":
        text = Path(sys.argv[2]).read_text(errors="replace")
        kind = re.search(r"^#kind (\S+)", text, re.M)
        if kind and kind.group(1).startswith("runner"):
            sys.argv[3:] = ["runner"]
        if kind and kind.group(1).startswith("math"):
            import math_leg

            return math_leg.replay(sys.argv[2], sys.modules[__name__])
        if kind and kind.group(1) == "python":
            import py_leg

            return py_leg.replay(sys.argv[2], sys.modules[__name__])
        fl = sys.argv[3] if len(sys.argv) > 3 else "normal"
        exe = build(fl)
        w = OUT / "work" / "replay"
        w.mkdir(parents=True, exist_ok=True)
        env = dict(os.environ)
        env.update(SAN_ENV.get(fl, {}))
        return subprocess.run([str(exe), "replay", sys.argv[2], "--work", str(w)], env=env).returncode
    return check(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
