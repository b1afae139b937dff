"""C07-C14: nonlinear solver."""
import json, random, re
import vlib, famlib, gen_nls

PARS = {  # the parameter sets of NLS_MC.tla
 "backtrack": dict(maxLS=2, ls="ARMIJO_BACKTRACK"),
 "polynomial": dict(maxLS=3, grad=0.0, ls="POLYNOMIAL_APPROXIMATION"),
 "damped": dict(lam0=0.3, minLam=0.125, lamFail=0.01, maxLam=7.0, maxLS=2, ls="ARMIJO_BACKTRACK"),
 "capped": dict(lam0=0.3, maxLam=0.3, maxLS=0, decS=0.0, ls="POLYNOMIAL_APPROXIMATION")}
BASE = {"grad": 1e-6, "abs": 1e-4, "rel": 0.5, "tau": 0.5, "lam0": 0.0, "lamFail": 0.02, "decS": 0.1, "decR": 0.8, "maxLam": 0.5, "minLam": 0.0, "kkt": 1e-8, "maxQp": 20}
LIN = {"down": [1.0, -1.0], "up": [1.0, 1.0], "flat": [0.0, 1.0]}

def replay_scenarios(out):
    """Turns the behaviours printed by the model into scripted runs of the real solver with the outcome the model predicts."""
    scns, seen = [], set()
    for m in re.finditer(r'(?m)^"VERIF-HIST (.*)"$', out):
        h = json.loads(m.group(1).replace('\\"', '"'))
        key = json.dumps(h, sort_keys=True)
        if key in seen: continue
        seen.add(key)
        it = h["hist"]; par = dict(BASE); par.update(PARS[h["par"]])
        par["maxIter"] = len(it) if h["term"] == "MAX_ITERATIONS" else len(it) + 2
        stop = next((i for i, x in enumerate(it) if not x["answer"]), -1)
        fl = lambda s: float("nan") if s == "nan" else (float(int(s.split("/")[0])) / int(s.split("/")[1]) if "/" in s else float(s))
        script = [(LIN[x["cls"]], [fl(t) for t in x["tries"]]) for x in it]
        exp = dict(it=[(x["res"], x["mode"], fl(x["lam"]), x["n"]) for x in it], term=h["term"])
        name = "r%d" % len(scns)
        scns.append((name, gen_nls.scenario(name, "replay", 1, ["script 1 1 0 0"], [], [(0, 1.0, -10.0)], "hold", par, [0.0], cbmode=1, cbstop=stop, script=script, expect=exp)))
    if len(scns) < 500: raise vlib.CheckError("the model printed only %d behaviours" % len(scns))
    return scns

#        general hard linear scripted indefinite edges
COUNTS = {"C07": (150, 150, 20, 150, 10, 200), "C08": (150, 150, 20, 150, 80, 300), "C09": (150, 200, 20, 200, 10, 150), "C10": (60, 150, 0, 400, 0, 250),
          "C11": (400, 200, 20, 0, 10), "C12": (300, 150, 60, 0, 20), "C13": (500, 300, 60, 0, 0), "C14": (0, 0, 700, 0, 0)}
REPLAY = ("C07", "C08", "C09", "C10")
REQ = {"C07": ["res_SUCCESS", "res_MAX_ITERATIONS", "res_FAILURE_NON_FINITE_COST", "backed_off", "bend", "replayed"],
       "C08": ["term_MAX_ITERATIONS", "term_SATISFIED_ABSOLUTE_TOL", "term_SATISFIED_RELATIVE_TOL", "term_SATISFIED_FIRST_ORDER_TOL", "term_MAX_LAMBDA", "term_QP_INDEFINITE", "term_USER_CALLBACK", "replayed"],
       "C09": ["recovered", "ramped", "damped", "replayed", "mode_ATTEMPTING_RESTORE_LM"],
       "C10": ["backtracks", "sharp_quadratic", "sharp_cubic", "res_FAILURE_INVALID_ALPHA", "res_FAILURE_NON_FINITE_COST", "res_POSITIVE_DERIVATIVE", "res_MAX_ITERATIONS", "replayed"],
       "C11": ["penalty_ip", "penalty_ns"], "C12": ["well_ip", "well_ns", "eigen", "damped"], "C13": ["bounds", "bounds_outside", "bounds_active"],
       "C14": ["optimum", "optimum_bounds", "optimum_eq", "optimum_active"]}

def build(): return vlib.harness("nls", ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"])

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    mc = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        f = 1 if quick else 15
        scns = vlib.split_scn(gen_nls.generate(random.Random(2000 + seed), *[n * f for n in COUNTS[prop]]))
        extra = None
        if prop in REPLAY:
            s, t, out = vlib.tlc_mc("NLS_MC", "NLS_MC_dump.cfg" if quick else "NLS_MC_dump_deep.cfg", 1)
            extra = (s, t)
            rs = replay_scenarios(out)
            if quick: random.Random(seed).shuffle(rs)
            scns += rs
        mc = [("NLS_MC", "NLS_MC.cfg" if quick else "NLS_MC_deep.cfg")]
    r = famlib.trace_check(prop, build, "NLS_Trace", "NLS_Trace.cfg", scns, seed, mc)
    r["required"] = REQ[prop]
    r["assumptions"] = ["IEEE doubles; decisions on numbers that agree to round-off may go either way", "subproblem accuracy is judged where it is well conditioned and feasible"]
    return r
