"""C24: failures of user functions."""
import random
import vlib, famlib, gen_nls

def scenarios(rng, count):
    """Problems of every mixture of costs, equalities, retraction and callback; a part cannot be evaluated where it starts."""
    text = "".join(gen_nls.general(rng, count, 0.4, "f") + gen_nls.linear(rng, count // 6, "fl") + gen_nls.indefinite(rng, count // 8, "fi", 0))
    for q in range(count // 5):
        n = rng.choice([1, 2, 3]); x0 = [rng.gauss(0, 1) for _ in range(n)]
        mode = rng.choice([1, 2]); v = rng.randrange(n)
        bad = lambda R: gen_nls.residual(R, [v], [rng.gauss(0, 1) for _ in range(R)], gen_nls.mat(rng, R, 1), nanmode=mode, thr=x0[v] - rng.choice([.1, 1, 5]))
        costs = gen_nls.prior(rng, n, 1., [rng.gauss(0, 1) for _ in range(n)]); eqs = []
        if n > 1 and rng.random() < .4: eqs.append(bad(1))
        else: costs.insert(rng.randint(0, len(costs)), bad(rng.choice([1, 2])))
        text += gen_nls.scenario("fb%d" % q, "bad", n, costs, eqs, gen_nls.bounds_for(rng, n, rng.choice([0, 0, 1]), x0), rng.choice(["add", "none", "bend"]), gen_nls.params(rng), x0, cbmode=rng.choice([1, 0]))
    return vlib.split_scn(text)

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    build = lambda: vlib.harness("fail", ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"])
    if replay: return famlib.trace_check(prop, build, "Failures_Trace", "Failures_Trace.cfg", vlib.split_scn(replay["scenario"]), seed)
    st = tr = 0; notes = []
    for f in ("swallow", "verdict", "restore", "candidate"):
        s, t = vlib.tlc_refute("Failures_MC", "Failures_MC_fault_%s.cfg" % f, "Rules")
        st += s; tr += t; notes.append("Failures_MC/fault_%s: refuted as it has to be" % f)
    mc = [("Failures_MC", "Failures_MC_%s%s.cfg" % (c, "" if quick else "_deep")) for c in "abcd"]
    r = famlib.trace_check(prop, build, "Failures_Trace", "Failures_Trace.cfg", scenarios(random.Random(24000 + seed), 160 if quick else 2500), seed, mc)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["kind_" + k for k in ("plain", "derived", "int", "assertion", "factorisation", "alloc", "text", "double", "string", "system", "logic_error", "domain_error", "invalid_argument", "length_error", "out_of_range", "runtime_error", "range_error", "overflow_error", "underflow_error", "exception", "bad_cast", "bad_function_call", "bad_optional_access")] + ["at_lin", "at_try", "at_move", "at_tell", "at_try_eval", "reused", "estimate_moved", "second_iteration",
                     "bad_start", "with_retraction", "with_callback", "with_equalities"]
    r["assumptions"] = ["user functions are deterministic and each run makes at most one of them throw", "what is thrown is one of 28 kinds of exceptions"]
    return r
