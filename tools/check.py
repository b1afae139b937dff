#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--replay FILE]: decides one property on /repo's working tree."""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, log, VERIF

FAMILY = {}
def _fam():
    for mod, props in (("fam_qpip", "C01 C02 C03 C04 C05 C23"), ("fam_nullspace", "C06"), ("fam_nls", "C07 C08 C09 C10 C11 C12 C13 C14"), ("fam_residual", "C15"),
                       ("fam_bounds", "C16"), ("fam_reuse", "C17"), ("fam_report", "C18 C19"), ("fam_tracing", "C20"), ("fam_inputs", "C21"), ("fam_fail", "C24"), ("fam_indep", "C22"), ("fam_solve", "C25"), ("fam_observe", "C26"), ("fam_cut", "C27")):
        for p in props.split(): FAMILY[p] = mod
_fam()

def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p): out = json.load(open(p))["findings"]
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    fam = importlib.import_module(FAMILY[a.prop])
    # Returns dict: violations [{rule, scn, detail, replay(dict)}], coverage {...}, required [hit names], hits {}
    replay = json.load(open(a.replay)) if a.replay else None
    r = fam.run(a.prop, a.tier, seed, replay)
    viol = r["violations"]
    known = [k for k in known_findings() if k["property"] == a.prop and k.get("status") == "open"]
    fresh = []
    for v in viol:
        k = next((k for k in known if k["rule"] == v["rule"] and k["input"] == v.get("input")), None)
        if k is None: fresh.append(v)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    missing = [] if replay else [h for h in r.get("required", []) if not r["hits"].get(h)]
    cov = dict(r["coverage"]); cov["rule_hits"] = r["hits"]
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": r.get("level", "model_checking"), "coverage": cov,
          "assumptions": r.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        shown = {}
        for v in fresh:
            if v["rule"] in shown: continue
            path = os.path.join(VERIF, "replay", "%s-%d.json" % (a.prop, len(shown) + 1))
            with open(path, "w") as f: json.dump({"property": a.prop, "seed": seed, "tier": a.tier, **v}, f, indent=1)
            shown[v["rule"]] = path
            print("  broken: %s in scenario %s %s" % (v["rule"], v.get("scn"), v.get("detail", "")))
        print("VIOLATION property=%s replay=%s" % (a.prop, next(iter(shown.values()))))
        sys.stdout.flush()
        return 1
    if missing:
        print("check %s decided nothing for: %s" % (a.prop, ", ".join(missing)))
        return 2
    print("OK %s: %s (%.0fs)" % (a.prop, r.get("summary", ""), time.time() - t0))
    return 0

if __name__ == "__main__":
    try: rc = main()
    except CheckError as e: print("CHECK-ERROR", e); rc = 2
    except Exception: traceback.print_exc(); rc = 2
    sys.exit(rc)
