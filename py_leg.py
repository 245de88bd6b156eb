"""C27: the real Python package (built over the stand-in for pyo3) under random histories, judged by pydrive.py."""
import ast
import hashlib
import os
import re
import signal
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent


def script_of(repo, pkg):
    """the console script pip would install"""
    m = re.search(r'(?m)^qir-runner\s*=\s*"([\w.]+):(\w+)"', (repo / "pip" / "pyproject.toml").read_text())
    mod, fn = m.groups() if m else ("qirrunner._native", "main")
    (pkg / "qir-runner").write_text(f"import sys\nsys.dont_write_bytecode = True\nfrom {mod} import {fn}\nif __name__ == '__main__':\n    sys.exit({fn}())\n")


def prepare(driver):
    import runner_build

    exe, pkg = runner_build.build_python(driver.REPO, driver.ROOT, driver.BUILD / "runner", driver.BuildError)
    script_of(driver.REPO, pkg)
    return exe, pkg


def one(exe, pkg, d, seed, cases, steps, timeout):
    d.mkdir(parents=True, exist_ok=True)
    r = subprocess.run([str(exe), "py-cases", "--seed", str(seed), "--n", str(cases), "--work", str(d)], stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode != 0:
        return None, f"writing the modules failed ({r.returncode}): {r.stdout[-800:]!r}"
    env = dict(os.environ, RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    return subprocess.Popen([sys.executable, str(HERE / "pydrive.py"), str(pkg), str(d), str(exe.parent / "qir-runner"), str(seed), str(steps), str(d / "report")],
                            stdin=subprocess.DEVNULL, stdout=open(d / "out", "wb"), stderr=open(d / "err", "wb"), env=env, cwd=str(d), start_new_session=True), None


def collect(p, d, timeout):
    """(lines of the report, violation or None, error or None)"""
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return [], None, "the Python driver ran out of time"
    text = (d / "report").read_text(errors="replace") if (d / "report").exists() else ""
    lines = [ln.split("\t") for ln in text.split("\n") if ln]
    for f in lines:
        if f[0] == "bad":
            return lines, (int(f[1]), ast.literal_eval(f[2])), None
    if rc == 0 and text.endswith("done\n"):
        return lines, None, None
    err = (d / "err").read_text(errors="replace")[-1200:]
    if (d / "report.step").exists():
        k = int((d / "report.step").read_text() or 0)
        return lines, (k, f"the Python process ends with code {rc} in step {k}: {err}"), None
    return lines, (0, f"the package cannot be imported or used (code {rc}): {err}"), None


def run(m, pid, leg, tier, seed, work, driver):
    exe, pkg = prepare(driver)
    n = leg.get("shards", 8)
    cases, steps = leg.get("cases", 60), leg.get("steps", 200)
    rounds = 12 if tier == "thorough" else 1
    for q in range(rounds):
        ps = []
        for k in range(n):
            d = work / f"py.{q}.{k}"
            s = seed * 1000 + q * 10 + k
            p, e = one(exe, pkg, d, s, cases, steps, 400)
            if e:
                m.errors.append(e)
                continue
            ps.append((p, d, s))
        for p, d, s in ps:
            lines, bad, err = collect(p, d, 400)
            for f in lines:
                if f[0] == "count":
                    m.counters[f[1]] = m.counters.get(f[1], 0) + int(f[2])
                elif f[0] == "ctx":
                    m.hashes.add(hashlib.blake2b(f[1].encode(), digest_size=8).digest())
                elif f[0] == "sample" and len(m.samples) < 3:
                    m.samples.append(f[1])
            if err:
                m.errors.append(err)
            if bad:
                rp = work / f"py.{q}.{s}.replay"
                rp.write_text(f"#property {pid}\n#kind python\n" + "".join(f"#message {x}\n" for x in bad[1].split("\n")) + f"{s} {cases} {bad[0] + 1}\n")
                m.viols.append((rp, bad[1]))


def replay(file, driver):
    body = [ln for ln in Path(file).read_text().split("\n") if ln and not ln.startswith("#")]
    s, cases, steps = (int(x) for x in body[0].split())
    exe, pkg = prepare(driver)
    d = driver.OUT / "work" / "replay" / "py"
    p, e = one(exe, pkg, d, s, cases, steps, 400)
    if e:
        print(e)
        return 2
    _, bad, err = collect(p, d, 400)
    print(f"FAILS: step {bad[0]}: {bad[1]}" if bad else err or "passes")
    return 1 if bad else 2 if err else 0
