"""C20: the trace collector under all schedules, and traced scopes."""
import os, random, subprocess, tempfile
import vlib, famlib, gen_tracing
from vlib import CheckError, log

WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]
REQ = ["sched", "scheduled", "full", "empty", "overlap", "submit_during_export", "bulk", "bulk_full", "bulk_empty", "fields", "scopes", "scope_threads", "scope_throw", "scope_unwind"]

def plain(): return vlib.harness("tracing", ["tracing.cc"], vlib.BASE + ["-O2"], WRAP)
def sanitised(): return vlib.harness("tracing", ["tracing.cc"], vlib.BASE + ["-O1", "-g", "-fsanitize=thread"], WRAP)
def tsan_works():
    """ThreadSanitizer needs a memory layout that not every kernel setting gives."""
    with tempfile.NamedTemporaryFile("w", dir=vlib.scratch(), suffix=".scn") as f:
        f.write("SCN probe bulk 2 10 10 1 0\n"); f.flush()
        r = subprocess.run([sanitised(), f.name], capture_output=True, text=True)
    return "FATAL: ThreadSanitizer" not in r.stderr

def run(prop, tier, seed, replay):
    quick = tier == "quick"
    st = tr = 0; notes = []; mc = []
    tsan_env = {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:detect_deadlocks=0"}
    have = tsan_works()
    parts = []
    if replay:
        scns = vlib.split_scn(replay["scenario"])
        if have: parts.append((sanitised, scns, tsan_env, False))
        parts.append((plain, scns, None, True))
    else:
        rng = random.Random(20000 + seed)
        dumps = {}
        for m, c in [("Tracing_MC", "Tracing_MC_dump.cfg"), ("Tracing_MC", "Tracing_MC_dump4.cfg" if quick else "Tracing_MC_dump5.cfg"), ("Scopes_MC", "Scopes_MC.cfg" if quick else "Scopes_MC_deep.cfg")]:
            s, t, out = vlib.tlc_mc(m, c, 4)
            st += s; tr += t; notes.append("%s/%s: %d states, %d transitions" % (m, c, s, t)); dumps[c] = out
        hs = [h for c, o in dumps.items() if "dump" in c for h in gen_tracing.printed(o, "SCHED")]
        progs = [p for c, o in dumps.items() if "Scopes" in c for p in gen_tracing.printed(o, "PROG")]
        if len(hs) < 150 or len(progs) < 1000: raise CheckError("the models printed too few behaviours: %d, %d" % (len(hs), len(progs)))
        small = gen_tracing.schedules(rng, hs, 400 if quick else 10 ** 6, 60 if quick else 2000, False) + gen_tracing.free(rng, 10 if quick else 200)
        full = gen_tracing.schedules(rng, hs, 40 if quick else 1500, 10 if quick else 200, True)
        scopes = gen_tracing.scopes(rng, progs, 12 if quick else 300)
        mt = [x for x in scopes if int(x[1].split()[3]) > 1]
        if have: parts.append((sanitised, small + mt[:8 if quick else 200] + [gen_tracing.bulk("race", [300, 300, 300], 6, 0)], tsan_env, False))
        parts.append((plain, ([] if have else small) + full + gen_tracing.bulks(rng, quick) + gen_tracing.fields(rng, 40 if quick else 2000) + scopes, None, True))
        mc = [("Tracing_MC", "Tracing_MC_%s.cfg" % c) for c in (["state", "outside", "outside3"] if quick else ["state", "deep", "outside", "outside3", "outside_deep"])]
    r = None
    for k, (b, scns, env, lim) in enumerate(parts):
        q = famlib.trace_check(prop, b, "Tracing_Trace", "Tracing_Trace.cfg", scns, seed, mc if k == 0 else [], env=env, limit_as=lim)
        r = q if r is None else famlib.merge(r, q)
    famlib.add_mc(r, st, tr, notes)
    r["required"] = REQ
    r["assumptions"] = ["names are valid UTF-8", "interleavings are controlled at operations and at locks; between those ThreadSanitizer looks for races" if have else "ThreadSanitizer does not run here: races were not looked for"]
    return r
