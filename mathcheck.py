"""Offline checker of the mathematical intrinsics (C22).

Run under python3-vt (mpmath). Reads lines "name xhex yhex resulthex" logged by the harness while it executed the
real functions, and judges each result against the real-number value (mpmath, 200 bits) and the IEEE conventions.

  mathcheck.py judge <logfile> <report>     report: lines "bad\t<line>\t<message>", "count\t<name>\t<n>", "ctx\t<text>"
"""
import math
import struct
import sys
from fractions import Fraction

import mpmath as mpm

mpm.mp.prec = 200
ULPS = 4  # "a few units in the last place"
MAX = sys.float_info.max
INF = math.inf


def dbl(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def neg(x):
    return math.copysign(1.0, x) < 0


def ulp_of(v):
    """spacing of the doubles around the real value v"""
    a = abs(v)
    if a == 0:
        return mpm.mpf(2) ** -1074
    e = mpm.frexp(a)[1]  # a = m * 2^e, m in [0.5, 1)
    return mpm.mpf(2) ** max(min(e, 1024) - 53, -1074)


def want_nan(r):
    return None if r != r else "expected NaN"


def want(r, w):
    """exactly w, including the sign of zero"""
    if w != w:
        return want_nan(r)
    ok = r == w and neg(r) == neg(w)
    return None if ok else f"expected {w!r}"


def near(r, y):
    """double r against the real value y"""
    if r != r:
        return f"expected {mpm.nstr(y, 20)}"
    if y == 0:
        return None if r == 0 else "expected 0"
    u = ulp_of(y)
    if math.isinf(r):
        if neg(r) != (y < 0) or abs(y) < mpm.mpf(MAX) - ULPS * u:
            return f"expected {mpm.nstr(y, 20)}"
        return None
    err = abs(mpm.mpf(r) - y) / u
    STAT["worst_ulps"] = max(STAT.get("worst_ulps", 0.0), float(min(err, 1e300)))
    if err > ULPS:
        return f"expected {mpm.nstr(y, 20)} (off by {mpm.nstr(err, 5)} units in the last place)"
    if r == 0 and neg(r) != (y < 0):
        return f"expected {mpm.nstr(y, 20)}, got a zero of the other sign"
    return None


STAT = {}


def unary(name, x, r):
    if x != x:
        return want_nan(r)
    odd = name in ("sin", "tan", "sinh", "tanh", "arcsin", "arctan")
    if x == 0:
        if odd or name == "sqrt":
            return want(r, x)
        if name in ("cos", "cosh"):
            return want(r, 1.0)
        if name == "log":
            return want(r, -INF)
        return near(r, mpm.pi / 2)  # arccos
    if math.isinf(x):
        s = -1.0 if x < 0 else 1.0
        if name in ("sin", "cos", "tan", "arcsin", "arccos"):
            return want_nan(r)
        if name in ("sqrt", "log"):
            return want_nan(r) if x < 0 else want(r, INF)
        if name == "sinh":
            return want(r, x)
        if name == "cosh":
            return want(r, INF)
        if name == "tanh":
            return want(r, s)
        return near(r, s * mpm.pi / 2)  # arctan
    if name in ("arcsin", "arccos"):
        if abs(x) > 1:
            return want_nan(r)
        if name == "arccos" and x == 1:
            return want(r, 0.0)
        v = mpm.mpf(x)
        if name == "arccos":
            # accurate near 1
            y = 2 * mpm.asin(mpm.sqrt((1 - v) / 2))
        else:
            y = mpm.asin(v)
        return near(r, y)
    if name in ("sqrt", "log"):
        if x < 0:
            return want_nan(r)
        if name == "log" and x == 1:
            return want(r, 0.0)
        return near(r, mpm.sqrt(mpm.mpf(x)) if name == "sqrt" else mpm.log(mpm.mpf(x)))
    if name in ("sinh", "cosh") and abs(x) > 1000:
        return want(r, INF if name == "cosh" or x > 0 else -INF)
    if name == "tanh" and abs(x) > 100:
        return near(r, mpm.mpf(-1 if x < 0 else 1))
    if abs(x) < 1e-40:
        # series: exact to far below one unit in the last place (or 1 for the even functions)
        return near(r, mpm.mpf(1) if name in ("cos", "cosh") else mpm.mpf(x))
    f = {"sin": mpm.sin, "cos": mpm.cos, "tan": mpm.tan, "sinh": mpm.sinh, "cosh": mpm.cosh, "tanh": mpm.tanh, "arctan": mpm.atan}[name]
    return near(r, f(mpm.mpf(x)))


def arctan2(y, x, r):
    if y != y or x != x:
        return want_nan(r)
    s = -1 if neg(y) else 1
    if y == 0:
        if neg(x):
            return near(r, s * mpm.pi)
        return want(r, y)
    if x == 0:
        return near(r, s * mpm.pi / 2)
    if math.isinf(y):
        k = mpm.pi / 2 if not math.isinf(x) else (mpm.pi / 4 if x > 0 else 3 * mpm.pi / 4)
        return near(r, s * k)
    if math.isinf(x):
        return want(r, math.copysign(0.0, y)) if x > 0 else near(r, s * mpm.pi)
    v = mpm.atan2(mpm.mpf(y), mpm.mpf(x))
    return near(r, v)


def remainder(x, y, r):
    if x != x or y != y or math.isinf(x) or y == 0:
        return want_nan(r)
    if math.isinf(y):
        return want(r, x)
    fx, fy = Fraction(x), Fraction(y)
    n = round(fx / fy)  # to nearest, ties to even
    w = fx - n * fy
    if w == 0:
        return want(r, math.copysign(0.0, x))
    if r != r or math.isinf(r) or Fraction(r) != w:
        return f"expected {float(w)!r} (quotient {n if abs(n) < 10**30 else 'huge'})"
    return None


def judge(name, xh, yh, rh):
    x, y = dbl(xh), dbl(yh)
    if name in ("isnan", "isinf", "isnegativeinfinity"):
        w = {"isnan": x != x, "isinf": x == INF, "isnegativeinfinity": x == -INF}[name]
        return None if int(rh, 16) == int(w) else f"expected {w}"
    r = dbl(rh)
    if name == "nan":
        return want_nan(r)
    if name == "infinity":
        return want(r, INF)
    if name == "arctan2":
        return arctan2(x, y, r)
    if name == "ieeeremainder":
        return remainder(x, y, r)
    return unary(name, x, r)


def cls(v):
    if v != v:
        return "nan"
    if math.isinf(v) or v == 0:
        return repr(v)
    m, e = math.frexp(v)
    return f"{'-' if v < 0 else '+'}{e // 4}{'p' if abs(m) == 0.5 else ''}"


def describe(line):
    name, xh, yh, rh = line.split()
    two = name in ("arctan2", "ieeeremainder")
    r = dbl(rh) if not name.startswith("is") else int(rh, 16)
    return f"{name}({dbl(xh)!r}{', ' + repr(dbl(yh)) if two else ''}) = {r!r}"


def main():
    log, rep = sys.argv[2], sys.argv[3]
    counts, ctxs, bad, samples = {}, set(), [], []
    for line in open(log):
        p = line.split()
        e = judge(*p)
        counts[p[0]] = counts.get(p[0], 0) + 1
        ctxs.add(f"{p[0]} {cls(dbl(p[1]))} {cls(dbl(p[2])) if p[0] in ('arctan2', 'ieeeremainder') else ''}")
        if e:
            bad.append((line.strip(), f"{describe(line)}: {e}"))
            if len(bad) >= 20:
                break
        elif counts[p[0]] in (3, 40):
            samples.append(describe(line))
    with open(rep, "w") as f:
        for ln, m in bad:
            f.write(f"bad\t{ln}\t{m}\n")
        for k, v in counts.items():
            f.write(f"count\t{k}\t{v}\n")
        for s in samples:
            f.write(f"sample\t{s}\n")
        for c in sorted(ctxs):
            f.write(f"ctx\t{c}\n")
        f.write(f"max\t{STAT.get('worst_ulps', 0.0)}\n")
        f.write("done\n")


if __name__ == "__main__":
    main()
