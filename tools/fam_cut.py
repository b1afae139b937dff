"""C27: exit settings only cut a run short."""
import random
import vlib, famlib, gen_nls, gen_reuse

SRC = ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc", "serialization.cc"]

def scenarios(rng, count):
    text = "".join(gen_nls.general(rng, count, 0.5, "g") + gen_nls.linear(rng, count // 6, "l") + gen_nls.scripted(rng, count // 6, "s") + gen_nls.indefinite(rng, count // 10, "i", .35))
    out = [(name, "SCN %s nls NLS" % name + t[3:]) for name, t in vlib.split_scn(text)]
    for q in range(count // 3):
        s = rng.choice(["plain", "eq", "bounds", "both", "bounds", "both"])
        out.append(("q%d" % q, "SCN q%d qp %s %d\n" % (q, gen_reuse.qp(rng, *rng.choice(gen_reuse.TABLES)[s], "spd"), rng.randrange(2310))))
    return out

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    vlib.log("  building")
    exe = lambda: vlib.harness("cut", SRC)
    if replay: return famlib.trace_check(prop, exe, "Cut_Trace", "Cut_Trace.cfg", vlib.split_scn(replay["scenario"]), seed)
    st = tr = 0; notes = []
    for f in ("last_iteration_moves", "budget_scales_damping", "tolerance_accepts", "stop_returns"):
        s, t = vlib.tlc_refute("Cut_MC", "Cut_MC_fault_%s.cfg" % f, "Rules")
        st += s; tr += t; notes.append("Cut_MC/fault_%s: refuted as it has to be" % f)
    mc = [("Cut_MC", "Cut_MC%s.cfg" % ("" if quick else "_deep"))]
    r = famlib.trace_check(prop, exe, "Cut_Trace", "Cut_Trace.cfg", scenarios(random.Random(27000 + seed), 160 if quick else 2000), seed, mc)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["what_nls", "what_ip", "equalities", "bounds", "equalitiesbounds", "long", "never_nls", "never_ip", "ends_ip_budget", "ends_ip_kkt", "late_ip_kkt", "state_ATTEMPTING_RESTORE_LM"] \
                    + ["%s_nls_%s" % (a, k) for a in ("ends", "late") for k in ("stop", "damping", "abs", "rel", "grad")] + ["ends_nls_budget", "cut_nls_tries"] \
                    + ["res_" + x for x in ("SUCCESS", "MAX_ITERATIONS", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA")]
    r["assumptions"] = ["user functions are deterministic"]
    return r
