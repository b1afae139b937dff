"""C22: several solver objects at the same time."""
import concurrent.futures as cf
import json, random, re, subprocess, tempfile
import vlib, famlib, gen_nls, gen_reuse
from gen_qpip import vec
from vlib import CheckError

SRC = ["nonlinear.cc", "qp.cc", "residual.cc", "structs.cc", "tracing.cc"]
def plain(): return vlib.harness("indep", SRC)
def sanitised(): return vlib.harness("indep", SRC, vlib.BASE + ["-O1", "-g", "-fsanitize=thread"])

def problem(rng, kind):
    while True:
        if kind == "hard": t = gen_nls.general(rng, 1, 1.0, "p")[0]
        else: t = gen_reuse.nls_problem(rng, "p")[2]
        n = int(t.split()[3])
        return n, "NLS" + t[3:]

def job(rng, kind, pi, dims):
    x = [rng.gauss(0, 1.5) for _ in range(dims[pi])] if kind in ("solve", "eval", "self") else []
    return "%s %d %d %s" % (kind, pi, rng.randrange(420), vec(x))

def scenario(rng, name, mode, kinds, nests, word, repeats):
    """kinds: of the jobs; nests: (parent, kind of call, child)."""
    np_ = rng.choice([1, 2, 2]); ps = [problem(rng, rng.choice(["hard", "mild", "mild"])) for _ in range(np_)]
    if np_ == 2 and rng.random() < .3: ps[1] = ps[0]
    nq = 3; shapes = rng.choice(gen_reuse.TABLES)
    qs = [gen_reuse.qp(rng, *shapes[s]) for s in ("both", "bounds", "eq")]
    dims = [p[0] for p in ps]; jobs = []; at = {}
    parent = {c: p for p, _, c in nests}
    for j, k in enumerate(kinds):
        if k == "qp": k = rng.choice(["ip", "ip", "ns"])
        if k in ("ip", "ns"): jobs.append(job(rng, k, 2 if k == "ns" else rng.randrange(2), None)); continue
        pi = at[parent[j]] if j in parent and parent[j] in at and (k == "self" or rng.random() < .7) else rng.randrange(np_)
        at[j] = pi; jobs.append(job(rng, k, pi, dims))
    L = ["SCN %s %s %d" % (name, mode, np_)] + [p[1].rstrip("\n") for p in ps] + [str(nq)] + qs + [str(len(jobs))] + jobs
    L += [str(len(nests))] + ["%d %s %d %d" % (p, k, rng.randrange(60), c) for p, k, c in nests] + ["%d %s" % (len(word), " ".join(map(str, word)))] + [str(repeats)]
    return (name, "\n".join(L) + "\n")

def words(out):
    return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"VERIF-MIX (.*)"$', out)]

def from_nesting(w):
    """Jobs and nests of a word of the model with one thread."""
    kinds = ["solve" if w[0]["kind"] == "lin" else "eval"]; nests = []; stack = [[0, None]]
    for s in w:
        if s["op"] == "step":
            if s["kind"] == "end": stack.pop()
            else: stack[-1][1] = s["kind"]
        else:
            kinds.append(s["kind"]); c = len(kinds) - 1
            nests.append((stack[-1][0], stack[-1][1], c)); stack.append([c, None])
    return kinds, nests

def scenarios(rng, threads, three, nest, nt, n3, nn):
    out = []
    for i, w in enumerate(rng.sample(threads, min(nt, len(threads)))):
        first = {s["t"]: s["kind"] for s in reversed(w)}
        out.append(scenario(rng, "t%d" % i, "turns", ["solve" if first[t] == "lin" else "eval" for t in (1, 2)], [], [s["t"] - 1 for s in w], 1))
    for i, w in enumerate(rng.sample(three, min(n3, len(three)))):
        out.append(scenario(rng, "m%d" % i, "turns", ["solve", rng.choice(["solve", "eval"]), rng.choice(["solve", "eval", "qp"])], [], [s["t"] - 1 for s in w], 1))
    for i, w in enumerate(nest if nn >= len(nest) else rng.sample(nest, nn)):
        kinds, nests = from_nesting(w)
        for p, k, c in nests:
            if k == "tell" and kinds[c] == "eval" and rng.random() < .5: kinds[c] = "self"
        out.append(scenario(rng, "n%d" % i, "nest", kinds, nests, [], 1))
    return out
def free(rng, count, repeats):
    return [scenario(rng, "f%d" % i, "free", [rng.choice(["solve", "solve", "eval", "qp"]) for _ in range(rng.choice([2, 3, 4]))], [], [], repeats) for i in range(count)]

def tsan_works():
    with tempfile.NamedTemporaryFile("w", dir=vlib.scratch(), suffix=".scn") as f:
        f.write(free(random.Random(1), 1, 1)[0][1]); f.flush()
        r = subprocess.run([sanitised(), f.name], capture_output=True, text=True)
    return "FATAL: ThreadSanitizer" not in r.stderr

REQ = ["mode_turns", "mode_nest", "mode_free", "interleaved", "job_solve", "job_eval", "job_self", "job_ip", "job_ns", "deep"] + ["nested_in_" + k for k in ("lin", "try", "move", "tell")] + ["nested_" + k for k in ("solve", "eval", "self", "ip", "ns")]

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    tsan_env = {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:detect_deadlocks=0"}
    with cf.ThreadPoolExecutor(2) as ex:   # both builds at once
        b = ex.submit(plain); have = tsan_works(); b.result()
    st = tr = 0; notes = []; parts = []
    if replay:
        scns = vlib.split_scn(replay["scenario"])
        if have: parts.append((sanitised, scns, tsan_env, False))
        parts.append((plain, scns, None, True))
    else:
        rng = random.Random(22000 + seed); ws = {}
        for c in ("threads", "three", "nest"):
            cfg = "Independent_MC_%s%s.cfg" % (c, "" if quick else "_deep")
            s, t, out = vlib.tlc_mc("Independent_MC", cfg, 4)
            st += s; tr += t; notes.append("Independent_MC/%s: %d states, %d transitions" % (cfg, s, t)); ws[c] = words(out)
        for w in ("Static_jac", "Static_err", "PerThread_jac", "PerThread_err", "PerThread_sum", "PerThread_kkt"):
            s, t = vlib.tlc_refute("Independent_MC", "Independent_MC_wrong_%s.cfg" % w, "Independence")
            st += s; tr += t; notes.append("Independent_MC/wrong_%s: refuted as it has to be" % w)
        if min(map(len, ws.values())) < 400: raise CheckError("the model printed too few mixtures: %s" % {k: len(v) for k, v in ws.items()})
        scns = scenarios(rng, ws["threads"], ws["three"], ws["nest"], *((120, 60, 1000) if quick else (10 ** 6, 1500, 10 ** 6)))
        if have: parts.append((sanitised, free(rng, 16 if quick else 300, 4), tsan_env, False))
        parts.append((plain, scns + free(rng, 20 if quick else 300, 20), None, True))
    r = None
    for b, scns, env, lim in parts:
        q = famlib.trace_check(prop, b, "Independent_Trace", "Independent_Trace.cfg", scns, seed, env=env, limit_as=lim)
        r = q if r is None else famlib.merge(r, q)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = REQ
    r["assumptions"] = ["user functions are deterministic and safe to call from several threads", "threads take turns at calls to user functions; between those ThreadSanitizer looks for races" if have else "ThreadSanitizer does not run here: races were not looked for"]
    return r
