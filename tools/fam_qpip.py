"""C01-C05, C23: interior point solver."""
import os, random
import vlib, famlib, gen_qpip

def scenarios(prop, tier, seed):
    rng = random.Random(1000 + seed)
    q = {"C01": (150, 120, 150, 20, 0, 250, 500), "C02": (100, 150, 40, 200), "C03": (300, 60, 0, 30), "C04": (150, 200, 40, 20, 0, 0, 150), "C05": (20, 20, 400, 0), "C23": (0, 40, 0, 40, 500)}[prop]
    f = 1 if tier == "quick" else 12
    return vlib.split_scn("".join(gen_qpip.generate(rng, *[n * f for n in q])))

REQ = {"C01": ["ret_SATISFIED_KKT_TOL", "ret_MAX_ITERATIONS", "sat_eq", "sat_ineq", "sat_degenerate", "scn_degenerate_nan", "not_finite", "near_dual", "near_eq", "near_ineq", "near_comp", "near_mu", "near_below", "near_above"],
       "C02": ["feasible_checked", "feasible_truncated", "ret_MAX_ITERATIONS"],
       "C03": ["step_newton", "step_pc", "step_sharp", "alpha_primal_cut", "alpha_dual_cut", "step_eq", "upper_garbage"],
       "C04": ["prefix", "rerun", "gated", "err_before", "schedule_COMPLEMENTARITY", "schedule_FIXED_DECREASE", "schedule_PREDICTOR_CORRECTOR"],
       "C05": ["solved", "solved_active", "solved_eq"],
       "C23": ["guess_USER_PROVIDED", "guess_NAIVE", "guess_SOLVE_EQUALITY_CONSTRAINED", "guess_clamped", "guess_inside", "guess_floored", "guess_contradictory", "guess_multipliers", "guess_first_step", "warm", "warm_bounds", "warm_moved"]}
MC = {"C01": ["run"], "C02": ["run", "exact"], "C03": ["exact"], "C04": ["run"], "C05": ["run"], "C23": ["exact"]}

def run(prop, tier, seed, replay):
    build = lambda: vlib.harness("qpip", ["qp.cc", "structs.cc"])
    scns = vlib.split_scn(replay["scenario"]) if replay else scenarios(prop, tier, seed)
    mc = [] if replay else [("QPIP_MC", "QPIP_MC_%s%s.cfg" % (c, "" if tier == "quick" else "_deep")) for c in MC[prop]]
    r = famlib.trace_check(prop, build, "QPIP_Trace", "QPIP_Trace.cfg", scns, seed, mc)
    r["required"] = REQ[prop]
    r["assumptions"] = ["IEEE doubles; comparisons use round-off bounds computed by the specification", "Newton rules are applied where the exact reduced system has eps*cond < 1e-3",
                        "iterates with magnitudes above 1e10 (diverging infeasible problems) are outside the claim"]
    return r
