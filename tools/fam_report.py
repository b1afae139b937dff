"""C18, C19: statistics, text reports and the serialised document."""
import random
import vlib, famlib, gen_report
from vlib import CheckError

REQ = {"C18": ["names", "report", "empty_log", "many_tries", "eigenvalues", "probe", "mode_NOMINAL", "mode_ATTEMPTING_RESTORE_LM", "qp_ns_SUCCESS", "qp_ns_NOT_POSITIVE_DEFINITE", "qp_ip_SATISFIED_KKT_TOL", "qp_ip_MAX_ITERATIONS"]
              + ["res_" + x for x in gen_report.RES] + ["term_" + x for x in gen_report.TERM],
       "C19": ["json", "non_finite", "jqp_ns", "jqp_ip", "eigenvalues", "no_eigenvalues", "multipliers", "no_multipliers"] + ["jterm_" + x for x in gen_report.TERM]}

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("report", ["structs.cc", "serialization.cc"])
    st = tr = 0; notes = []; mc = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        rng = random.Random(7000 + seed)
        st, tr, out = vlib.tlc_mc("Report_MC", "Report_MC.cfg", 4)
        notes.append("Report_MC/Report_MC.cfg: %d states, %d transitions" % (st, tr))
        scns = gen_report.from_model(rng, out, 600 if quick else 8000, True)
        if scns is None: raise CheckError("the model printed too few logs")
        scns += gen_report.randoms(rng, 80 if quick else 1500, True)
        if not quick: mc = [("Report_MC", "Report_MC_deep.cfg")]
    r = famlib.trace_check(prop, build, "Report_Trace", "Report_Trace.cfg", scns, seed, mc)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = REQ[prop]
    r["assumptions"] = ["the outputs are constructed through the public constructors; logs of real runs are a subset of these"]
    return r
