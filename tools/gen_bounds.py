"""Histories of bound constraints (harness/bounds.cc)."""
import json, random, re
from fractions import Fraction
from gen_qpip import hx

XS = [-3, -2, -1, -.5, 0, .5, 2 / 3, 1, 1.5, 2, 3]
def tests(rng, extra=()):
    return ["feas %s clamp %s" % (hx(x), hx(x)) for x in list(extra) + XS]

def from_model(rng, out, per=40):
    hs = []
    seen = set()
    for m in re.finditer(r'(?m)^"VERIF-BND (.*)"$', out):
        if m.group(1) in seen: continue
        seen.add(m.group(1))
        h = json.loads(m.group(1).replace('\\"', '"'))
        t = []
        for o in h:
            p = hx(float(Fraction(o["p"])))
            if o["op"] in ("le", "ge"): t.append("%s %d %s" % (o["op"], o["v"], p))
            elif o["op"] == "con": t.append("con %d %s %s" % (o["v"], hx(float(Fraction(o["a"]))), p))
            else: t.append("%s %s" % (o["op"], p))
        hs.append("\n".join(t + tests(rng)))
    rng.shuffle(hs)
    return [("m%d" % i, "SCN m%d\n" % i + "\n".join(hs[i:i + per]) + "\ndone\n") for i in range(0, len(hs), per)]

def mag(rng):
    t = rng.random()
    if t < .6: return rng.gauss(0, 3)
    if t < .8: return rng.choice([-1, 1]) * 10 ** rng.uniform(-40, 40)
    if t < .9: return rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 8)
    return float(rng.randint(-5, 5))
def next_to(rng, t):
    import math
    return rng.choice([t, math.nextafter(t, math.inf), math.nextafter(t, -math.inf), t * (1 + 1e-9), t * (1 - 1e-9)])

def randoms(rng, count):
    out = []
    for q in range(count):
        L = []
        for _ in range(8):
            k = rng.choice(["le", "ge", "con"]); i = rng.randint(0, 6)
            p = mag(rng)
            if k == "con":
                a = mag(rng)
                if abs(a) < 1e-30 or rng.random() < .05: a = rng.choice([0.0, -2.0, 1.0])
                L.append("con %d %s %s" % (i, hx(a), hx(p))); t = -p / a if a else 0.0
            else: L.append("%s %d %s" % (k, i, hx(p))); t = p
            for _ in range(rng.randint(0, 3)):
                for x in [next_to(rng, t), mag(rng), next_to(rng, t)]: L.append("feas %s clamp %s" % (hx(x), hx(x)))
                d = rng.choice([mag(rng), t, t - rng.gauss(0, 1)])
                if abs(d) > 1e60: d = 1.0
                L.append("%s %s" % (rng.choice(["shift", "shiftv"]), hx(d))); t = t - d
            for x in [next_to(rng, t), mag(rng)]: L.append("feas %s clamp %s" % (hx(x), hx(x)))
        out.append(("s%d" % q, "SCN s%d\n" % q + "\n".join(L) + "\ndone\n"))
    return out
