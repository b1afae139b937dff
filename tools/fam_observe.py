"""C26: watching a solve does not change it."""
import os, random, stat
import vlib, famlib, gen_nls, gen_reuse

SRC = ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc", "serialization.cc"]
COMMON = ["-std=c++17", "-DFMT_HEADER_ONLY=1", "-isystem", "/usr/include/eigen3"]
BUILDS = [None,                                                                           # as the checks build everywhere: tracing and serialisation
          COMMON + ["-DNDEBUG", "-DEIGEN_NO_DEBUG", "-O2"],                               # neither
          COMMON + ["-DMINI_OPT_SERIALIZATION", "-DMINI_OPT_TRACING", "-D_GLIBCXX_ASSERTIONS", "-O0"]]   # with debug assertions

def wrapper():
    """Runs the executable the environment names."""
    f = os.path.join(vlib.BUILD, "bin", "observe-run"); t = '#!/bin/sh\nexec "$OBSERVE_EXE" "$1"\n'
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if not os.path.exists(f) or vlib.read(f) != t:
        tmp = f + ".%d" % os.getpid()
        with open(tmp, "w") as o: o.write(t)
        os.chmod(tmp, 0o755); os.rename(tmp, f)
    return f

def flat(rng, count):
    """The cost has no curvature in some direction; the constraints make the subproblems regular all the same."""
    out = []
    for q in range(count):
        n = rng.choice([2, 2, 3]); x0 = [rng.gauss(0, 1) for _ in range(n)]
        costs = [gen_nls.residual(1, [i], [rng.gauss(0, 1)], [[rng.choice([1., .5, 2.])]], [[[rng.choice([0, 0, .2])]]]) for i in range(n - 1)]
        es, b = [], []
        if q % 3: es.append(gen_nls.residual(1, list(range(n)), [rng.gauss(0, 1)], [[rng.choice([0., 1., -1.]) for _ in range(n - 1)] + [rng.choice([1., -2.])]]))
        if q % 3 != 1: b = [(n - 1, 1., 1. - x0[-1]), (n - 1, -1., 1. + x0[-1])]
        par = gen_nls.params(rng); par.update(lam0=0., minLam=0.)
        out.append(gen_nls.scenario("f%d" % q, "flat", n, costs, es, b, rng.choice(["add", "none"]), par, x0))
    return out

def scenarios(rng, count):
    text = "".join(flat(rng, count // 8) + gen_nls.general(rng, count, 0.5, "g") + gen_nls.linear(rng, count // 6, "l") + gen_nls.indefinite(rng, count // 10, "i", 0))
    out = []
    for name, t in vlib.split_scn(text): out.append((name, "SCN %s nls NLS" % name + t[3:]))
    for q in range(count // 2):
        shapes = rng.choice(gen_reuse.TABLES); s = rng.choice(["plain", "eq", "bounds", "both", "eq2"])
        ns = s in ("eq", "eq2") and rng.random() < .5
        out.append(("q%d" % q, "SCN q%d qp %s %d\n" % (q, gen_reuse.qp(rng, *shapes[s], rng.choice(["spd", "spd", "spd", "neg"] if ns else ["spd", "spd", "zero"])), -1 if ns else rng.randrange(420))))
    return out

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    vlib.log("  building")
    exes = [vlib.harness("observe", SRC, b) for b in BUILDS]
    envs = [{"OBSERVE_EXE": e} for e in exes]
    if replay: return famlib.trace_check(prop, wrapper, "Observe_Trace", "Observe_Trace.cfg", vlib.split_scn(replay["scenario"]), seed, envs=envs)
    st = tr = 0; notes = []
    for f in ("eig_in_place", "peek_candidate", "answer_resets", "told_is_moved"):
        s, t = vlib.tlc_refute("Observe_MC", "Observe_MC_fault_%s.cfg" % f, "Rules")
        st += s; tr += t; notes.append("Observe_MC/fault_%s: refuted as it has to be" % f)
    mc = [("Observe_MC", "Observe_MC%s.cfg" % ("" if quick else "_deep"))]
    r = famlib.trace_check(prop, wrapper, "Observe_Trace", "Observe_Trace.cfg", scenarios(random.Random(26000 + seed), 160 if quick else 3000), seed, mc, envs=envs)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = ["kind_nls", "kind_ip", "kind_ns", "equalities", "bounds", "flat", "retraction", "long", "build_full", "build_bare", "build_debug"] + ["mode_" + m for m in ("eig", "tell", "eig_tell", "heavy", "peek", "side", "all", "none")] \
                    + ["term_" + t for t in ("SATISFIED_KKT_TOL", "SUCCESS", "SATISFIED_FIRST_ORDER_TOL", "SATISFIED_RELATIVE_TOL", "MAX_ITERATIONS", "QP_INDEFINITE", "MAX_LAMBDA")]
    r["assumptions"] = ["user functions are deterministic", "bitwise equality between builds relies on IEEE double arithmetic without contraction (x86-64 baseline)"]
    return r
