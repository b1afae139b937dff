"""Solver outputs for harness/report.cc."""
import json, math, random, re
from gen_qpip import hx

RES = ["SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"]
TERM = ["MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"]
def hx2(v): return "nan" if math.isnan(v) else ("inf" if v > 0 else "-inf") if math.isinf(v) else hx(v)
def mag(rng, wild):
    t = rng.random()
    if wild and t < .06: return rng.choice([math.nan, math.inf, -math.inf])
    if wild and t < .12: return rng.choice([0.0, -0.0, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 0.1, 1 / 3, 1e15, 1e16, 123456789012345680.0])
    if t < .4: return rng.gauss(0, 3)
    if t < .6: return rng.choice([-1, 1]) * 10 ** rng.uniform(-18, 18)
    if wild and t < .7: return rng.choice([-1, 1]) * 10 ** rng.uniform(-300, 300)
    return float(rng.choice([0, 1, -1, .5, .25, .8, 100, 3]))

def log(rng, term, its, wild):
    m = lambda: hx2(mag(rng, wild))
    L = [term, len(its)]
    for k, it in enumerate(its):
        i = k if not wild or rng.random() < .8 else rng.choice([0, 7, 2147483647, -1])
        L += [i, it["mode"], m(), m(), m()]
        if it["kind"] == "ns": L += ["ns", it["qt"]]
        else:
            L += ["ip", it["qt"], it["n"]]
            for _ in range(it["n"]):
                L += [m() for _ in range(8)] + [m() for _ in range(3)]
                probe = rng.random() < .5
                L += [m() if probe else "nan" for _ in range(3)]
            L += [1, m(), m()] if it["lag"] else [0]
        L += [1, m(), m(), m()] if it["eig"] else [0]
        L += [m(), m(), m(), it["res"], it["t"]]
        for _ in range(it["t"]): L += [hx2(rng.choice([1.0, .8, .5 ** rng.randint(0, 40), rng.random(), mag(rng, wild)])), m(), m()]
    return " ".join(map(str, L))

def entry(rng):
    kind = rng.choice(["ns", "ip"])
    return dict(mode=rng.choice(["NOMINAL", "ATTEMPTING_RESTORE_LM"]), kind=kind, qt=rng.choice(["SUCCESS", "SUCCESS", "NOT_POSITIVE_DEFINITE"] if kind == "ns" else ["SATISFIED_KKT_TOL", "MAX_ITERATIONS"]),
                n=rng.choice([0, 1, 2, 5, 11]), lag=rng.random() < .5, eig=rng.random() < .4, res=rng.choice(RES), t=rng.choice([0, 1, 2, 3, 8, 12]))

def pack(name, logs): return ("%s" % name, "SCN %s %d\n" % (name, len(logs)) + "\n".join(logs) + "\n")

def from_model(rng, out, keep, wild):
    hs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"VERIF-LOG (.*)"$', out)]
    if len(hs) < 1000: return None
    rng.shuffle(hs)
    hs = sorted(hs[:keep], key=lambda h: len(h["its"]))
    logs = [log(rng, h["term"], h["its"], wild) for h in hs]
    return [pack("m%d" % k, logs[k:k + 25]) for k in range(0, len(logs), 25)]
def randoms(rng, count, wild):
    return [pack("r%d" % q, [log(rng, rng.choice(TERM), [entry(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 9]))], wild) for _ in range(4)]) for q in range(count)]
