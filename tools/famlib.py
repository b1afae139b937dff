"""Common flow of the trace-validating families."""
import concurrent.futures as cf
import random
import vlib
from vlib import CheckError, log

class MCRun:
    """Model checking runs in the background (they do not depend on the code under test)."""
    def __init__(self, runs, workers=4):
        self.runs = list(runs); self.ex = cf.ThreadPoolExecutor(2)
        self.f = [self.ex.submit(vlib.tlc_mc, m, c, workers) for m, c in self.runs]
    def result(self):
        states = trans = 0; notes = []
        for (m, c), f in zip(self.runs, self.f):
            s, t, _ = f.result(); states += s; trans += t; notes.append("%s/%s: %d states, %d transitions" % (m, c, s, t))
        self.ex.shutdown()
        return states, trans, notes

def _runs(exe, scns, timeout, env, limit_as, envs):
    """The traces of the scenarios; with several environments, those of the runs one after another."""
    out = {}
    for e in envs or [env]:
        for n, t in vlib.run_scenarios(exe, scns, timeout, env=e, limit_as=limit_as).items():
            if n not in out: out[n] = t
            elif out[n][-1]["e"] != "crash": out[n] = out[n][:-1] + t
    return out

def trace_check(prop, build, module, cfg, scns, seed, mc=(), timeout=20.0, crash_event=True, post=None, env=None, shards=None, limit_as=True, envs=None):
    """Runs the scenarios, validates the traces with TLC; mc: list of (module, cfg) model checking runs done alongside."""
    by = dict(scns)
    vlib.java_classes()
    mcr = MCRun(mc)
    exe = build()
    traces = _runs(exe, scns, timeout, env, limit_as, envs)
    crashed = {n: t for n, t in traces.items() if t[-1]["e"] == "crash"}
    good = {n: t for n, t in traces.items() if n not in crashed}
    viol, hits, lines = vlib.validate(module, cfg, good, prop, shards)
    out = []
    for n, t in crashed.items(): out.append(dict(rule=prop + ".crash", scn=n, detail=t[-1]["how"][-300:]))
    out += [dict(rule=v["rule"], scn=v["scn"], detail="event %s" % v["line"]) for v in viol if v["rule"].split(".")[0] in (prop, "any")]
    if out:  # confirm on a second run of the offending scenarios alone
        names = sorted({v["scn"] for v in out})[:40]
        again = _runs(exe, [(n, by[n]) for n in names], timeout, env, limit_as, envs)
        c2 = {n for n, t in again.items() if t[-1]["e"] == "crash"}
        v2, _, _ = vlib.validate(module, cfg, {n: t for n, t in again.items() if n not in c2}, prop, shards) if len(c2) < len(again) else ([], {}, 0)
        bad = c2 | {v["scn"] for v in v2 if v["rule"].split(".")[0] in (prop, "any")}
        dropped = [v for v in out if v["scn"] in names and v["scn"] not in bad]
        if dropped and not bad: raise CheckError("violations did not repeat: %s" % dropped[:3])
        out = [v for v in out if v["scn"] in bad]
        for v in out: v["scenario"] = by[v["scn"]]; v["events"] = again.get(v["scn"], [])[:400]
    states, trans, mcs = mcr.result()
    rng = random.Random(seed)
    sample = [by[n] for n in rng.sample(sorted(good), min(2, len(good)))]
    cov = dict(states=states + lines, transitions=trans + lines, traces_validated_against_impl=len(good), samples=sample, events=lines, model_runs=mcs)
    return dict(violations=out, hits=hits, coverage=cov, summary="%d traces, %d events, %d model states" % (len(good), lines, states))

def add_mc(r, states, trans, notes):
    """Accounts for model checking runs made before the traces."""
    c = r["coverage"]
    c["states"] += states; c["transitions"] += trans; c["model_runs"] = notes + list(c.get("model_runs", []))
    r["summary"] = "%d traces, %d events, %d model states" % (c["traces_validated_against_impl"], c["events"], c["states"] - c["events"])
    return r

def merge(a, b):
    """The results of two sets of traces."""
    hits = dict(a["hits"])
    for h, n in b["hits"].items(): hits[h] = hits.get(h, 0) + n
    c, d = dict(a["coverage"]), b["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl", "events"): c[k] += d[k]
    for k in ("samples", "model_runs"): c[k] = list(c[k]) + list(d[k])
    return dict(violations=a["violations"] + b["violations"], hits=hits, coverage=c,
                summary="%d traces, %d events, %d model states" % (c["traces_validated_against_impl"], c["events"], c["states"] - c["events"]))
