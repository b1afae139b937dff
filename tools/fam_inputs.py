"""C21: rejection of malformed problems, parameters, guesses and calls."""
import random
import vlib, famlib, gen_inputs
from vlib import CheckError

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("inputs", ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"], vlib.BASE + ["-O1", "-fsanitize=address"])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        rng = random.Random(8000 + seed)
        c = "Inputs_MC.cfg" if quick else "Inputs_MC_deep.cfg"
        st, tr, out = vlib.tlc_mc("Inputs_MC", c, 4)
        notes.append("Inputs_MC/%s: %d states, %d transitions" % (c, st, tr))
        devs, seqs = gen_inputs.found(out, "VERIF-DEV"), gen_inputs.found(out, "VERIF-CALLS")
        if len(devs) < 1000 or len(seqs) < 2000: raise CheckError("the model printed %d deviations and %d sequences" % (len(devs), len(seqs)))
        scns = gen_inputs.nls(rng, devs, 200 if quick else 10 ** 9) + gen_inputs.sequences(rng, seqs if not quick else rng.sample(seqs, min(len(seqs), 2401)))
        scns += gen_inputs.ctors(rng, .05 if quick else .5) + gen_inputs.problems(rng, 400 if quick else 20000) + gen_inputs.residuals() + gen_inputs.bounds()
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}
    r = famlib.trace_check(prop, build, "Inputs_Trace", "Inputs_Trace.cfg", scns, seed, env=env, limit_as=False)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["nls_accept", "nls_reject", "guess_dimension", "solved_after", "ctor_accept", "ctor_reject", "prob_accept", "prob_reject", "moved_residual", "zero_coefficient", "bad_bound_index", "bad_equality_index", "bad_cost_index",
                     "setup_accept", "setup_reject", "rejected_after_good", "ipsolve_accept", "ipsolve_reject", "slacks_not_positive", "nothing_set_up", "ip_zero_coefficient", "vars_accept", "vars_reject", "shape_accept", "shape_reject",
                     "null_accept", "null_reject", "make_accept", "make_reject", "bound", "bound_outside", "bound_zero"] + ["res_%s_%s" % (o, v) for o in ("error", "hessian", "jacobian", "quadratic") for v in ("accept", "reject")] + ["res_moved_reject", "res_hessian_null_reject"]
    r["assumptions"] = ["accesses outside the problem's memory are those AddressSanitizer sees", "parameters that are infinite, more equality constraints than variables, and problems without variables may be accepted or rejected"]
    return r
