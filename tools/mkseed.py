#!/usr/bin/env python3
"""developer tool: mkseed.py DIR.. : (re)builds seeded/<id> from tools/seeds/<id>.py-style descriptions and confirms it.
A description is a Python file with: property, needs, breaks, edits=[(file, old, new)], demo (Rust, fn main), hooks=[(file, rust text)]"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
V = "/verif"; T = V + "/tools/demo_tpl"
def sh(cmd, cwd=None, timeout=900): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def load(p):
    s = importlib.util.spec_from_file_location("x", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
def build(sid):
    m = load(f"{V}/tools/seeds/{sid}.py")
    d = f"{V}/seeded/{sid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp"); r = w + "/repo"
    sh(f"git clone -q /repo {r}")
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    for f, a, b in m.edits:
        o = sh(f"git show {base}:{f}", "/repo").stdout.split("\n"); bl = b.split("\n")
        gone = [l for l in a.split("\n") if l.strip() and l not in bl]
        new = [l for l in gone if l.strip() not in " ".join(o)]
        if not gone or new: print("  NOTE", sid, f, "lines not of the original:", new or "nothing removed")
        p = f"{r}/{f}"; s = open(p).read()
        assert s.count(a) == 1, (sid, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
    for f in ("demo.sh", "Cargo.toml", "Cargo.lock"): shutil.copy(f"{T}/{f}", d)
    shutil.copytree(V + "/stubs/mqtt-proto", d + "/mqtt-proto", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    open(d + "/demo.rs", "w").write((open(T + "/net.rs").read() if getattr(m, "net", False) else "") + m.demo)
    with open(d + "/hooks.txt", "w") as f:
        if getattr(m, "net", False):
            for n in ("common", "broker"):
                open(f"{d}/hook_{n}.rs", "w").write(open(f"{V}/harness/vx/{n}.rs").read().replace("super::common", "crate::hook_common")); f.write(f"lib.rs hook_{n}\n")
        for i, (rel, txt) in enumerate(getattr(m, "hooks", [])):
            open(f"{d}/hook_{i}.rs", "w").write(txt); f.write(f"{rel} hook_{i}\n")
    json.dump(dict(property=m.property, needs=m.needs, what_it_breaks=m.breaks), open(d + "/meta.json", "w"), indent=1)
    clean = w + "/clean"; sh(f"git clone -q /repo {clean}")
    a = sh(f"bash {d}/demo.sh", clean); b = sh(f"bash {d}/demo.sh", r)
    res = dict(id=sid, clean=a.returncode, patched=b.returncode)
    if a.returncode: print("CLEAN FAILED", a.stdout[-1500:], a.stderr[-800:])
    if b.returncode in (0, 3, 4): print("PATCHED:", b.returncode, b.stdout[-1500:])
    shutil.rmtree(w)
    return res
def caught(sid, ids=None):
    m = load(f"{V}/tools/seeds/{sid}.py")
    w = f"/tmp/seedrun"; r = w + "/repo"; shutil.rmtree(r, ignore_errors=True); os.makedirs(w, exist_ok=True)
    sh(f"git clone -q /repo {r}"); sh(f"git apply {V}/seeded/{sid}/patch.diff", r)
    e = dict(os.environ, VX_REPO=r, VX_BUILD=w + "/build")
    out = {}
    for i in (ids or [m.property]):
        ev = f"{V}/evidence/{i}.json"; keep = open(ev).read() if os.path.exists(ev) else None
        q = subprocess.run(["python3", V + "/check.py", i], cwd=V, env=e, capture_output=True, text=True)
        if keep: open(ev, "w").write(keep)
        out[i] = (q.returncode, [l for l in q.stdout.splitlines() if l.startswith(("[A]", "[B]", "  fail", "VIOL"))])
    return out
if __name__ == "__main__":
    only = "--caught" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/tools/seeds/*.py"))
    for sid in ids:
        if not only:
            r = build(sid); print(r, flush=True)
            if r["clean"] != 0 or r["patched"] in (0, 3, 4): continue
        for i, (rc, ls) in caught(sid).items():
            print("   check", i, "exit", rc); [print("     ", l[:220]) for l in ls]
