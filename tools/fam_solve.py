"""C25: well-posed nonlinear problems."""
import json, random, re
import vlib, famlib, gen_solve
from vlib import CheckError

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("solve", ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        rng = random.Random(9000 + seed)
        scns = vlib.split_scn(gen_solve.generate(rng, 1500 if quick else 25000))
        for fault in ("penalty_fixed", "short_steps", "any_success"):
            s, t = vlib.tlc_refute("Solve_MC", "Solve_MC_fault_%s.cfg" % fault, "SolvesWellPosed")
            st += s; tr += t; notes.append("Solve_MC with fault %s: refuted as required" % fault)
        c = "Solve_MC.cfg" if quick else "Solve_MC_deep.cfg"
        s, t, out = vlib.tlc_mc("Solve_MC", c)
        st += s; tr += t; notes.append("Solve_MC/%s: %d states, %d transitions" % (c, s, t))
        runs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"VERIF-RUN (.*)"$', out)]
        if len(runs) < 300: raise CheckError("the model printed only %d runs" % len(runs))
        if sum(r["well"] for r in runs) < 100: raise CheckError("the model has too few well-posed instances")
        scns += gen_solve.replays(runs)
        replayed = [r for r in runs if not r["prob"]["ineq"] and r["k"] <= 12]
        for tag, least in (("backtracked", 40), ("shortened", 40), ("cubic", 10), ("recovering", 20), ("restored", 15), ("raised", 15), ("shortened_twice", 10)):
            if sum(tag in r["seen"] for r in replayed) < least: raise CheckError("too few replayed runs have %s" % tag)
    r = famlib.trace_check(prop, build, "Solve_Trace", "Solve_Trace.cfg", scns, seed)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["judged", "free", "equalities", "bounds", "active", "both", "at_solution", "again", "curved", "residual_left", "damped", "large_multipliers", "model_run", "ls_ARMIJO_BACKTRACK", "ls_POLYNOMIAL_APPROXIMATION",
                     "term_SATISFIED_FIRST_ORDER_TOL", "term_SATISFIED_ABSOLUTE_TOL", "term_SATISFIED_RELATIVE_TOL"]
    r["assumptions"] = ["convergence is asked for where curvature, conditioning, distance and residual size satisfy the bound of Solve.tla; with bounds, where the first order tolerance is no finer than the gap the inner solver leaves",
                        "problems of up to four variables"]
    return r
