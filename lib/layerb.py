"""Layer B: builds the real akasa-core (copied from /repo on every run, with the search modules as child
modules) and runs one search on it."""
import json, os, re, shutil, subprocess, time
import props
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")

def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.pop("RUSTC_BOOTSTRAP", None)
    return e

def prepare(pid):
    p = props.PROPS[pid]
    root = os.environ.get("VX_BUILD", VERIF + "/build")
    d = f"{root}/h_{pid.lower()}"
    os.makedirs(d, exist_ok=True)
    for sub in ("core", "vx"):
        shutil.rmtree(f"{d}/{sub}", ignore_errors=True)
    shutil.copytree(f"{REPO}/akasa-core/src", f"{d}/core", ignore=shutil.ignore_patterns("tests"))
    os.makedirs(f"{d}/vx")
    with open(f"{VERIF}/harness/Cargo.toml.in") as f: t = f.read()
    new = t.replace("@STUB@", VERIF + "/stubs/mqtt-proto")
    if not os.path.exists(f"{d}/Cargo.toml") or open(f"{d}/Cargo.toml").read() != new: open(f"{d}/Cargo.toml", "w").write(new)
    shutil.copy(f"{VERIF}/harness/Cargo.lock", f"{d}/Cargo.lock")
    shutil.copy(f"{VERIF}/harness/vx/main.rs", f"{d}/vx/main.rs")
    lib = open(f"{d}/core/lib.rs").read()
    lib += f'\n#[allow(unused, dead_code)]\n#[path = "{VERIF}/harness/vx/common.rs"]\npub mod vx_common;\npub mod vx {{\n pub use super::vx_common as common;\n'
    for m in p.get("mods", []):
        lib += f' #[allow(unused, dead_code)] #[path = "{VERIF}/harness/vx/{m}.rs"] pub mod {m};\n'
    entry = p["entry"]
    lib += f' pub fn main_entry() {{ super::vx_common::drive("{pid}", |c| {entry}(c)) }}\n}}\n'
    # private modules on the way to a hook become visible inside the crate (visibility only)
    open(f"{d}/core/lib.rs", "w").write(lib)
    for rel, hs in p.get("hooks", {}).items():
        with open(f"{d}/core/{rel}", "a") as f:
            for h in ([hs] if isinstance(hs, str) else hs):
                f.write(f'\n#[allow(unused, dead_code)]\n#[path = "{VERIF}/harness/vx/{h}.rs"]\npub(crate) mod vx_{h};\n')
    # `mod x;` -> `pub(crate) mod x;` in every mod.rs / lib.rs so that hooks can be reached
    for r, _, fs in os.walk(f"{d}/core"):
        for f in fs:
            if f in ("mod.rs", "lib.rs"):
                q = os.path.join(r, f); s = open(q).read()
                s2 = re.sub(r"(?m)^mod (\w+);", r"pub(crate) mod \1;", s)
                if s2 != s: open(q, "w").write(s2)
    return d

def run(pid, tier, seed, budget):
    t0 = time.time()
    out = dict(status="undecided", reason="", evaluations=0, distinct=0, samples=[], rules=[], fails=[], wall=0.0)
    try:
        d = prepare(pid)
    except (OSError, shutil.Error) as e:
        out["reason"] = f"preparing the build failed: {e}"; return out
    e = env(); e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VX_BUDGET=str(budget))
    try:
        b = subprocess.run(["cargo", "build", "--offline", "-q", "--bin", "vx"], cwd=d, env=e, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        out["reason"] = "build timed out"; return out
    out["build_s"] = time.time() - t0
    if b.returncode != 0:
        errs = re.findall(r"(?m)^error.*(?:\n\s+-->.*)?", b.stderr)
        out["reason"] = "the harness does not compile against this tree: " + " | ".join(errs[:4])[:1500]; out["build_log"] = b.stderr[-6000:]
        return out
    cmd = [f"{d}/target/debug/vx"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=budget + 200)
    except subprocess.TimeoutExpired:
        out["reason"] = "the search did not end"; return out
    out["wall"] = time.time() - t0
    m = re.search(r"(?m)^VXRESULT (\{.*\})$", r.stdout)
    if not m:
        out["reason"] = f"the search ended with status {r.returncode}: {r.stderr[-800:]}"; out["crash"] = r.returncode; return out
    js = json.loads(m.group(1))
    out.update(evaluations=js["evaluations"], distinct=js["distinct"], samples=js["samples"], rules=js["rules"], fails=js["fails"])
    if js["harness_panic"] : out["reason"] = "the search itself panicked"; out["status"] = "undecided"
    else: out["status"] = "ok"
    return out
