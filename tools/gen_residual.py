"""Scenarios for residual assembly (harness/residual.cc)."""
import json, random, re
from fractions import Fraction
from gen_qpip import vec, mat

def dy(rng): return rng.randint(-(1 << 20), 1 << 20) / float(1 << 18)   # 21 bits: sums of products stay exact
def scenario(name, x, H, g, J, e, rs, ops):
    n = len(x)
    L = ["SCN", name, vec(x), mat(H, n, n), vec(g), mat(J, len(J), n), vec(e), str(len(rs))]
    for dyn, ctor, idx, c, A, Q in rs:
        L += ["%d %s %d %d %s" % (dyn, ctor, len(c), len(idx), " ".join(map(str, idx))), vec(c), mat(A, len(c), len(idx)), mat(Q, len(c), len(idx))]
    L.append(str(len(ops)))
    L += ["%s %d %d" % o for o in ops]
    return (name, "\n".join(L) + "\n")

CT = ["init", "copy", "move"]
def randoms(rng, count):
    out = []
    for q in range(count):
        n = rng.randint(1, 8); tall = 10
        m = lambda r, c: [[dy(rng) for _ in range(c)] for _ in range(r)]
        v = lambda k: [dy(rng) for _ in range(k)]
        rs = []
        for _ in range(rng.randint(1, 3)):
            rows = rng.randint(1, 4); k = rng.randint(1, min(n, 6)); idx = rng.sample(range(n), k)
            # Q is small so that Q p^2 stays exact
            rs.append((int(k > 5 or rng.random() < .5), rng.choice(CT), idx, v(rows), m(rows, k), [[float(rng.randint(-1, 1)) for _ in range(k)] for _ in range(rows)]))
        ops = []
        for _ in range(rng.randint(1, 6)):
            w = rng.randrange(len(rs)); rows = len(rs[w][3])
            ops.append((rng.choice(["hessian", "jacobian", "error", "quadratic"]), w, rng.randint(0, tall - rows)))
        # few significant bits where products of three factors appear
        x = [rng.randint(-64, 64) / 16.0 for _ in range(n)]
        rs = [(a, b, i, [round(t * 1024) / 1024 for t in c], [[round(t * 1024) / 1024 for t in r] for r in A], Q) for a, b, i, c, A, Q in rs]
        if q % 4 == 0:   # some residuals vanish at x: the offset is what the rest leaves
            for _, _, idx, c, A, Q in rs:
                if rng.random() < .6:
                    p = [x[i] for i in idx]
                    for r in range(len(c)): c[r] = -sum(A[r][k] * p[k] + Q[r][k] * p[k] * p[k] for k in range(len(p))) if rng.random() < .9 else c[r]
        elif q % 4 == 2:   # a parameter that does not matter
            for _, _, idx, c, A, Q in rs:
                k = rng.randrange(len(idx))
                for r in range(len(c)): A[r][k] = Q[r][k] = 0.0
        elif q % 16 == 1: x[:] = [0.0] * n
        out.append(scenario("s%d" % q, x, m(n, n), v(n), m(tall, n), v(tall), rs, ops))
    return out

def from_model(rng, outs):
    out = []
    f = lambda s: float(Fraction(s)) if "x" not in s else float.fromhex(s)
    fv = lambda v: [f(a) for a in v]
    fm = lambda m: [fv(r) for r in m]
    for o in outs:
        for m in re.finditer(r'(?m)^"VERIF-RES (.*)"$', o):
            d = json.loads(m.group(1).replace('\\"', '"'))
            rs = [(rng.randint(0, 1), rng.choice(CT), [i - 1 for i in r["idx"]], fv(r["c"]), fm(r["A"]), fm(r["Q"])) for r in d["rs"]]
            out.append(scenario("m%d" % len(out), fv(d["x"]), fm(d["mem"]["H"]), fv(d["mem"]["g"]), fm(d["mem"]["J"]), fv(d["mem"]["e"]), rs,
                                [(p["kind"], p["res"] - 1, p["off"]) for p in d["ops"]]))
    return out
