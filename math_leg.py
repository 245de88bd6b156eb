"""C22: runs the real intrinsics in the harness, then the offline checker over the logs."""
import hashlib
import re
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
VT = "python3-vt"


def run(m, pid, leg, tier, seed, work, driver):
    exe = driver.build("normal")
    n = leg.get("n", 25_000) * (12 if tier == "thorough" else 1)
    workers = leg.get("shards", 8)
    ps = []
    for k in range(workers):
        log, rep = work / f"math.{k}.log", work / f"math.{k}.rep"
        with open(log, "wb") as f:
            r = subprocess.run([str(exe), "math-log", "--seed", str(seed * 100 + k), "--n", str(n)], stdout=f, stderr=subprocess.PIPE)
        if r.returncode != 0:
            last = log.read_text(errors="replace").strip().split("\n")[-1]
            rp = work / f"math.{k}.replay"
            rp.write_text(f"#property {pid}\n#kind mathlog\n{seed * 100 + k} {n}\n")
            m.viols.append((rp, f"evaluating the intrinsics ended the process (code {r.returncode}); last logged line {last!r}: {r.stderr.decode(errors='replace')[-800:]}"))
            continue
        ps.append((k, rep, subprocess.Popen([VT, str(HERE / "mathcheck.py"), "judge", str(log), str(rep)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for k, rep, p in ps:
        out = p.communicate()[0].decode(errors="replace")
        text = rep.read_text() if rep.exists() else ""
        if p.returncode != 0 or not text.endswith("done\n"):
            m.errors.append(f"the offline checker of the mathematical log failed: {out[-1500:]}")
            continue
        for line in text.split("\n"):
            f = line.split("\t")
            if f[0] == "count":
                m.counters[f[1] + "_judged"] = m.counters.get(f[1] + "_judged", 0) + int(f[2])
                m.counters["evaluations_judged"] = m.counters.get("evaluations_judged", 0) + int(f[2])
            elif f[0] == "sample" and k == 0:
                m.samples.append(f[1])
            elif f[0] == "ctx":
                m.hashes.add(hashlib.blake2b(f[1].encode(), digest_size=8).digest())
            elif f[0] == "max":
                m.maxes["worst_error_in_units_in_the_last_place"] = max(m.maxes.get("worst_error_in_units_in_the_last_place", 0.0), float(f[1]))
            elif f[0] == "bad" and len(m.viols) < 20:
                rp = work / f"math.{k}.{len(m.viols)}.replay"
                rp.write_text(f"#property {pid}\n#kind math\n#message {f[2]}\n{f[1]}\n")
                m.viols.append((rp, f[2]))


def replay(file, driver):
    text = Path(file).read_text()
    body = [ln for ln in text.split("\n") if ln and not ln.startswith("#")]
    exe = driver.build("normal")
    if re.search(r"^#kind mathlog", text, re.M):
        s, n = body[0].split()
        r = subprocess.run([str(exe), "math-log", "--seed", s, "--n", n], stdout=subprocess.DEVNULL)
        print("FAILS: the process ended abnormally" if r.returncode else "passes")
        return int(r.returncode != 0)
    bad = 0
    for ln in body:
        name, x, y, _ = ln.split()
        got = subprocess.run([str(exe), "math-eval", name, x, y], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        code = f"import sys; sys.path.insert(0, {str(HERE)!r}); import mathcheck as c; e = c.judge({name!r}, {x!r}, {y!r}, {got!r}); print(('FAILS: ' + c.describe({' '.join((name, x, y, got))!r}) + ': ' + e) if e else 'passes'); sys.exit(1 if e else 0)"
        bad |= subprocess.run([VT, "-c", code]).returncode
    return bad
