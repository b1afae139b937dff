"""C06: null-space solver."""
import concurrent.futures as cf, random
import vlib, famlib, gen_nullspace

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("nullspace", ["qp.cc", "structs.cc"])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        cfgs = ["NullSpace_MC1.cfg", "NullSpace_MC2_deep.cfg", "NullSpace_MC3.cfg"] + ([] if quick else ["NullSpace_MC3_deep.cfg"])
        with cf.ThreadPoolExecutor(2) as ex: rs = list(ex.map(lambda c: (c,) + vlib.tlc_mc("NullSpace_MC", c, 4), cfgs))
        for c, s, t, _ in rs: st += s; tr += t; notes.append("NullSpace_MC/%s: %d states, %d transitions" % (c, s, t))
        rng = random.Random(3000 + seed)
        scns = gen_nullspace.from_model(rng, [r[3] for r in rs]) + gen_nullspace.sequences(rng, 300 if quick else 8000)
    r = famlib.trace_check(prop, build, "NullSpace_Trace", "NullSpace_Trace.cfg", scns, seed)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["verdict_SUCCESS", "verdict_NOT_POSITIVE_DEFINITE", "decided", "redundant", "determined", "more_rows", "reused", "eigen_indefinite", "indefinite_cost", "upper_garbage", "no_real_constraint", "flat_direction", "near_dependent"]
    r["assumptions"] = ["redundant constraints are exactly redundant in floating point", "costs within a relative 1e-9 of being singular on the null space may be judged either way"]
    return r
