"""C15: residual assembly."""
import concurrent.futures as cf, random
import vlib, famlib, gen_residual

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("residual", ["residual.cc"])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        cfgs = ["Residual_MC2.cfg", "Residual_MC3.cfg", "Residual_MC4.cfg"] + ([] if quick else ["Residual_MC4_deep.cfg", "Residual_MC5_deep.cfg"])
        with cf.ThreadPoolExecutor(2) as ex: rs = list(ex.map(lambda c: (c,) + vlib.tlc_mc("Residual_MC", c, 4), cfgs))
        for c, s, t, _ in rs: st += s; tr += t; notes.append("Residual_MC/%s: %d states, %d transitions" % (c, s, t))
        rng = random.Random(4000 + seed)
        scns = gen_residual.from_model(rng, [r[3] for r in rs]) + gen_residual.randoms(rng, 600 if quick else 20000)
    r = famlib.trace_check(prop, build, "Residual_Trace", "Residual_Trace.cfg", scns, seed)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["dynamic", "static", "out_of_order", "sparse", "op_hessian", "op_jacobian", "op_error", "op_quadratic", "zero_error", "zero_column"]
    r["assumptions"] = ["parameter indices of one residual are distinct"]
    return r
