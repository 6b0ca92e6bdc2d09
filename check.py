#!/usr/bin/env python3
"""Decides one property: check.py <ID>   (VERIF_SEED, VERIF_TIER from the environment)

Layer A: contracts on functions extracted from /repo on this run, discharged by Verus.
Layer B: bounded concrete search on the compiled code, which looks for an input that replays a failed
         obligation and stands in (labelled bounded) where a function is outside the verifier's reach."""
import importlib, json, os, re, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF + "/lib", VERIF + "/units"]
import vunit, layerb, props
from rustsrc import Lost

BUILD = os.environ.get("VX_BUILD", VERIF + "/build")
SCAN = re.compile(r"\b(assume|admit)\s*\(|external_body|assume_specification|#\[verifier::external|axiom\s+fn|broadcast\s+axiom|uninterp\b")

def known(pid):
    out = {}
    with open(VERIF + "/known_findings.txt") as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def rlimit_retry(path, flags, timeout, log):
    r = vunit.run_verus(path, flags, timeout, log)
    if r["status"] != "proved":
        # a second attempt with another solver seed and a larger budget before anything is concluded
        r2 = vunit.run_verus(path, flags + ["--rlimit", "60", "-V", "spinoff-all"], timeout, None)
        if r2["status"] == "proved" or (r["status"] == "undecided" and r2["status"] == "failed"):
            r2["retried"] = True; return r2
    return r

def layer_a(mod, pid, timeout):
    res = dict(unit=mod, status="undecided", reason="", failures=[], functions=[], obligations=0, discharged=0, solver_s=0.0, trusted=[], rewrites=[], wall=0.0)
    t0 = time.time()
    d = f"{BUILD}/a_{pid.lower()}_{mod}"
    try:
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/log", exist_ok=True)
        u = importlib.import_module(mod).unit()
        code = u.generate(False)
        fns = list(u.fns); res["trusted"] = list(u.trusted_notes); res["rewrites"] = sorted(set(u.rewrites))
        open(d + "/unit.rs", "w").write(code)
        probe = u.generate(True)
        os.makedirs(d + "/probe", exist_ok=True)
        open(d + "/probe/unit.rs", "w").write(probe)
    except Lost as e:
        res["reason"] = f"lost anchor: {e}"; return res
    except Exception as e:
        res["reason"] = f"extraction failed: {type(e).__name__}: {e}"; return res
    res["functions"] = [f"{f['file'].split('/src/')[-1]}:{f['name']}" for f in fns if not f["trusted"]]
    for i, ln in enumerate(code.splitlines(), 1):
        m = SCAN.search(ln)
        if m:
            nxt = code.splitlines()[i - 1:i + 2]
            sig = next((x.strip() for x in nxt if re.search(r"\b(fn|struct|impl|axiom)\b", x)), ln.strip())
            res["trusted"].append(re.sub(r"\s+", " ", sig)[:160])
    res["trusted"] = sorted(set(res["trusted"]))
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(rlimit_retry, d + "/unit.rs", u.flags, timeout, d + "/log")
        fp = ex.submit(vunit.run_verus, d + "/probe/unit.rs", u.flags, timeout)
        r, p = fa.result(), fp.result()
    res["cmd"] = r["cmd"]; res["wall"] = time.time() - t0
    t = r.get("times", {}).get("smt", {})
    res["solver_s"] = (t.get("total", 0) / 1000.0) if isinstance(t, dict) else 0.0
    res["obligations"] = vunit.count_obligations(d + "/log")
    res["queries_verified"] = r.get("verified", 0)
    # vacuity: with `assert(false)` at the start of each body, each contracted function must be rejected
    u2 = [f for f in u.fns if not f["trusted"]]
    hit = set()
    for e in p.get("errors", []):
        for s in e["spans"]:
            for f in u2:
                if f["gen"][0] <= s["line"] <= f["gen"][1] and "vx_probe" in s["text"]: hit.add(f["name"])
    vac = [f["name"] for f in u2 if f["name"] not in hit and not f.get("noprobe")]
    res["probe_rejected"] = len(hit)
    if r["status"] == "proved":
        if vac: res["reason"] = "vacuous contracts: " + ", ".join(vac)
        elif res["obligations"] == 0: res["reason"] = "no obligations generated"
        else: res["status"] = "proved"; res["discharged"] = res["obligations"]
    elif r["status"] == "failed":
        res["status"] = "failed"
        for e in r["errors"]:
            fn = None
            for s in e["spans"]:
                for f in fns:
                    if f["gen"][0] <= s["line"] <= f["gen"][1]: fn = f
            clause = next((s["text"] for s in e["spans"] if "failed" in s["label"]), "") or next((s["text"] for s in e["spans"] if s["primary"]), "")
            res["failures"].append(dict(function=fn["name"] if fn else "(lemma)", file=fn["file"] if fn else "", line=fn["line"] if fn else 0,
                                        obligation=e["message"], clause=clause, output=e["rendered"]))
        if all(f["function"] == "(lemma)" for f in res["failures"]):
            res["status"] = "undecided"; res["reason"] = "only auxiliary lemmas failed (solver)"
        res["discharged"] = max(0, res["obligations"] - len(res["failures"]))
    else:
        res["reason"] = r["reason"]
    shutil.rmtree(d + "/log", ignore_errors=True)
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = tier if tier in ("quick", "thorough") else "quick"
    p = props.PROPS[pid]
    t0 = time.time()
    budget = p.get("budget", {}).get(tier, 90 if tier == "quick" else 500)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(layerb.run, pid, tier, seed, budget) if p.get("entry") else None
        fas = [ex.submit(layer_a, m, pid, 300 if tier == "quick" else 600) for m in p["units"]]
        A = [f.result() for f in fas]
        B = fb.result() if fb else dict(status="none", reason="", evaluations=0, distinct=0, samples=[], rules=[], fails=[])
    kn = known(pid)
    reports, knownhits = [], []
    for f in B["fails"]:
        (knownhits if f["key"] in kn else reports).append(f)
    failed = [dict(unit=a["unit"], **f) for a in A for f in a["failures"] if a["status"] == "failed"]
    for k in kn: print(f"KNOWN-FINDING: property={pid} {kn[k]}")
    os.makedirs(VERIF + "/evidence", exist_ok=True); os.makedirs(BUILD, exist_ok=True)
    for a in A:
        print(f"[A] {a['unit']}: {a['status']} obligations={a['obligations']} functions={len(a['functions'])} wall={a['wall']:.1f}s {a['reason']}")
    print(f"[B] {B['status']} evaluations={B['evaluations']} distinct={B['distinct']} {B['reason']}")
    violation = bool(reports or failed)
    replay = None
    if violation:
        replay = f"{BUILD}/replay_{pid}.txt"
        with open(replay, "w") as f:
            f.write(f"property {pid}\n")
            for r in reports:
                f.write(f"\nFAILING INPUT (found on the compiled code; {r['count']} such cases)\nkind: {r['key']}\n{r['detail']}\nrun again: VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {pid}\n")
            for x in failed:
                f.write(f"\nFAILED OBLIGATION in {x['function']} ({x['file']}:{x['line']}), unit {x['unit']}\n{x['obligation']}: {x['clause']}\nverifier output:\n{x['output']}\n")
    proved = [a for a in A if a["status"] == "proved"]
    trusted = sorted({t for a in A for t in a["trusted"]})
    assumptions = ["Verus 0.2026.09.13 with its vstd library and Z3, and rustc, are trusted", "extraction: " + vunit.GLOBAL_NOTE] + p.get("assumptions", [])
    if p.get("mqtt", True): assumptions.append("mqtt-proto is not available offline: its types are the stand-in /verif/stubs/mqtt-proto in layer B and stated contracts in layer A")
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "proof"), wall_s=round(time.time() - t0, 2), violations=len(reports) + len(failed), assumptions=assumptions,
        coverage=dict(
            obligations=sum(a["obligations"] for a in A), discharged=sum(a["discharged"] for a in A),
            checker_cmd="; ".join(a.get("cmd", "") for a in A if a.get("cmd")) or "none",
            trusted_base=trusted or ["none beyond the assumptions"],
            functions_under_contract=[f for a in A for f in a["functions"]],
            functions_count=sum(len(a["functions"]) for a in A), backend="Verus / Z3",
            solver_s=round(sum(a["solver_s"] for a in A), 2), verifier_wall_s=round(sum(a["wall"] for a in A), 2),
            vacuity_probes_rejected=sum(a.get("probe_rejected", 0) for a in A),
            units=[dict(unit=a["unit"], status=a["status"], reason=a["reason"], obligations=a["obligations"], discharged=a["discharged"]) for a in A],
            rewrites=sorted({r for a in A for r in a["rewrites"]})[:80],
            bounded=dict(label="bounded concrete search on the compiled code, never counted as proved", status=B["status"], reason=B["reason"][:600], evaluations=B["evaluations"], distinct=B["distinct"], rule=" ; ".join(B["rules"]), samples=B["samples"][:4]),
            evaluations=B["evaluations"], distinct_nontrivial=B["distinct"], rule=" ; ".join(B["rules"]), samples=B["samples"][:4],
            not_covered=p.get("not_covered", []), known_findings=[kn[k["key"]] for k in knownhits]))
    tmp = f"{VERIF}/evidence/{pid}.json.tmp"
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{pid}.json")
    if violation:
        for r in reports[:5]: print(f"  failing input [{r['key']}]: {r['detail'][:700]}")
        for x in failed[:5]: print(f"  failed obligation {x['function']}: {x['obligation']}: {x['clause'][:200]}")
        print(f"VIOLATION property={pid} replay={replay}" + ("" if reports else " no-failing-input-found"))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
