"""C16: bound constraint primitives."""
import random
import vlib, famlib, gen_bounds

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("bounds", [])
    st = tr = 0; notes = []
    if replay: scns = vlib.split_scn(replay["scenario"])
    else:
        c = "Bounds_MC.cfg" if quick else "Bounds_MC_deep.cfg"
        st, tr, out = vlib.tlc_mc("Bounds_MC", c, 4)
        notes.append("Bounds_MC/%s: %d states, %d transitions" % (c, st, tr))
        rng = random.Random(5000 + seed)
        scns = gen_bounds.from_model(rng, out) + gen_bounds.randoms(rng, 300 if quick else 10000)
    r = famlib.trace_check(prop, build, "Bounds_Trace", "Bounds_Trace.cfg", scns, seed)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["new_le", "new_ge", "new_con", "feasible_decided", "on_the_bound", "zero_coefficient", "zero_refused", "clamp_inside", "clamp_outside", "shift_scalar", "shift_vector"]
    r["assumptions"] = ["finite arguments without overflow; values that agree to 4 units in the last place may be judged either way, except for unit coefficients"]
    return r
