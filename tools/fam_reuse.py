"""C17: re-use of solver objects."""
import random
import vlib, famlib, gen_reuse
from vlib import CheckError

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("reuse", ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        rng = random.Random(6000 + seed); scns = []
        for fam, rand in (("ip", 60), ("nls", 150)):
            c = "Reuse_MC_%s%s.cfg" % (fam, "" if quick else "_deep")
            s, t, out = vlib.tlc_mc("Reuse_MC", c, 4)
            st += s; tr += t; notes.append("Reuse_MC/%s: %d states, %d transitions" % (c, s, t))
            hs = gen_reuse.histories(out)
            if len(hs) < 200: raise CheckError("the model printed only %d histories" % len(hs))
            scns += gen_reuse.scenarios(rng, fam, hs, rand * (1 if quick else 10), 8)
    # The same histories with different rubbish in fresh memory: results must not depend on it.
    envs = [{"POISON": "0"}, {"POISON": "255", "MALLOC_PERTURB_": "1"}, {"POISON": "63", "MALLOC_PERTURB_": "193"}]
    r = famlib.trace_check(prop, build, "Reuse_Trace", "Reuse_Trace.cfg", scns, seed, envs=envs)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["op_ip", "op_ipre", "op_ns", "op_solve", "op_eval", "outcome_success", "outcome_unfinished", "outcome_assertion", "outcome_exception", "outcome_user_exception", "outcome_stopped",
                     "outcome_failure", "after_exception", "after_user_exception", "after_assertion", "after_failure", "after_unfinished", "after_other_shape", "seen_before", "rubbish_in_memory"]
    r["assumptions"] = ["user functions are deterministic", "fresh heap and stack memory is filled with different patterns to expose reads of uninitialised memory; a read that never influences a result is not seen"]
    return r
