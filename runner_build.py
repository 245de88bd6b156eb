"""Builds the harness together with the runner in a generated workspace.

The runner's `inkwell` dependency (git, LLVM 20) cannot be fetched; /verif/shim/inkwell stands in for it over LLVM 18; likewise
/verif/shim/pyo3 for pyo3.
The workspace holds copies of /repo's runner, backend, stdlib, sparsesim and pip (rewritten only when they differ) and of the
harness with its runner checks switched on.
"""
import os
import re
import shutil
import subprocess
from pathlib import Path


def sync(src, dst, keep=lambda p: True):
    """makes dst a copy of src, touching only files that differ"""
    want = set()
    for p in sorted(src.rglob("*")):
        rel = p.relative_to(src)
        if "target" in rel.parts[:1] or not p.is_file() or not keep(rel):
            continue
        want.add(rel)
        q = dst / rel
        data = p.read_bytes()
        if not q.exists() or q.read_bytes() != data:
            q.parent.mkdir(parents=True, exist_ok=True)
            q.write_bytes(data)
    if dst.exists():
        for q in sorted(dst.rglob("*")):
            if q.is_file() and q.relative_to(dst) not in want:
                q.unlink()


def put(path, text):
    if not path.exists() or path.read_text() != text:
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text)


def prepare(repo, root, td):
    ws = td / "ws"
    for c in ("runner", "backend", "stdlib", "sparsesim", "pip"):
        sync(repo / c, ws / c)
    sync(root / "harness" / "src", ws / "harness" / "src")
    for c in ("inkwell", "pyo3", "pyo3_macros"):
        sync(root / "shim" / c, ws / c)
    top = (repo / "Cargo.toml").read_text()
    top = re.sub(r"members\s*=\s*\[.*?\]", 'members = ["backend", "runner", "sparsesim", "stdlib", "harness", "inkwell", "pip", "pyo3", "pyo3_macros"]', top, count=1, flags=re.S)
    top = re.sub(r"(?m)^inkwell\s*=.*$", 'inkwell = { path = "inkwell" }', top)
    top = re.sub(r"(?m)^pyo3\s*=.*$", 'pyo3 = { path = "pyo3" }', top)
    h = (root / "harness" / "Cargo.toml").read_text()
    prof = re.search(r"(?ms)^\[profile\.dev\].*?(?=^\[|\Z)", h).group(0)
    top += "\n" + prof
    put(ws / "Cargo.toml", top)
    h = h.replace(prof, "").replace("[workspace]\n", "")
    h = re.sub(r'path = "/repo/(\w+)"', r'path = "../\1"', h)
    h = h.replace("[dependencies]", '[dependencies]\nrunner = { path = "../runner" }')
    h = re.sub(r"(?m)^default = \[\]", 'default = ["with-runner"]', h)
    put(ws / "harness" / "Cargo.toml", h)
    lock = ws / "Cargo.lock"
    if not lock.exists():
        # versions of the argument parser are the cached ones, everything else as locked in /repo
        parts = (repo / "Cargo.lock").read_text().split("\n[[package]]\n")
        drop = re.compile(r'name = "(clap|clap_builder|clap_lex|ansi.*|anst.*|strsim|colorchoice|is_terminal_polyfill|utf8parse|inkwell.*|llvm-sys|pyo3.*|windows.*|once_cell.*|proc-macro2|quote|syn|unicode-ident)"')
        lock.write_text("\n[[package]]\n".join(q for q in parts if not drop.match(q)))
    return ws


def cargo(ws, td, args):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return subprocess.run(["cargo", *args, "--offline", "--target-dir", str(td / "target")], cwd=ws, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(repo, root, td, error=RuntimeError):
    td.mkdir(parents=True, exist_ok=True)
    ws = prepare(repo, root, td)
    r = cargo(ws, td, ["build", "-p", "harness", "-p", "runner"])
    if r.returncode != 0:
        raise error(f"build of the runner workspace failed:\n{r.stdout[-6000:]}")
    return td / "target" / "debug" / "harness"


def build_python(repo, root, td, error=RuntimeError):
    """the importable qirrunner package, built from /repo's pip with the stand-in for pyo3"""
    exe = build(repo, root, td, error)
    r = cargo(td / "ws", td, ["build", "-p", "qirrunner"])
    if r.returncode != 0:
        raise error(f"build of the Python package failed:\n{r.stdout[-6000:]}")
    pkg = td / "python" / "qirrunner"
    pkg.mkdir(parents=True, exist_ok=True)
    sync(repo / "pip" / "qirrunner", pkg, lambda p: p.suffix != ".pyc")
    shutil.copyfile(td / "target" / "debug" / "libqirrunner.so", pkg / "_native.abi3.so")
    return exe, td / "python"
