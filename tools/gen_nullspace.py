"""Problems for the null-space solver (harness/nullspace.cc): random sequences, and the problems printed by NullSpace_MC."""
import json, random, re
from gen_qpip import vec, mat, eqs, spd, dot

def prob(G, c, A, b):
    n = len(c)
    return " ".join([mat(G, n, n), vec(c), mat(A, len(A), n), vec(b)])

def one(rng):
    n = rng.randint(1, 6); k = min(n, rng.choice([1, 1, 2, 2, 3, n]))
    ints = rng.random() < .5
    A = None
    if ints:
        for _ in range(50):
            A = [[float(rng.randint(-2, 2)) for _ in range(n)] for _ in range(k)]
            if all(any(r) for r in A): break
        A = A[:max(1, min(k, 3))]
    else: A = eqs(rng, n, k)
    x0 = [float(rng.randint(-3, 3)) if ints else rng.gauss(0, 2) for _ in range(n)]
    if ints:
        # exact linear combinations; floating point rows are only repeated (or zero), which is exact as well
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            w = [rng.randint(-2, 2) for _ in A]
            A.append([float(sum(w[i] * A[i][j] for i in range(len(w)))) for j in range(n)])
    else:
        for _ in range(rng.choice([0, 0, 0, 1, 3])):
            A.append([0.0] * n if rng.random() < .3 else [rng.choice([1., 2., -.5]) * v for v in A[0]])
    close = 0
    if n > 1 and rng.random() < .2:   # an independent row close to one of the others
        close = rng.choice([1e-2, 1e-3, 2.0**-13, 1e-5, 2.0**-18, 1e-6]); r = A[rng.randrange(len(A))]
        d = [float(rng.randint(-2, 2)) if ints else rng.gauss(0, 1) for _ in range(n)]
        if any(abs(r[i] * d[j] - r[j] * d[i]) > .3 for i in range(n) for j in range(i)): A = A[:max(1, n - 2)]; A.append([x + close * y for x, y in zip(r, d)])
    rng.shuffle(A)
    b = [-dot(r, x0) for r in A]
    if not ints:  # keep repeated rows exactly consistent
        seen = []
        for i, r in enumerate(A):
            for j, q in seen:
                f = next((a / c for a, c in zip(r, q) if c), None)
                if f is not None and f in (1, 2, -.5, .5, -2, -4, 4, -1, -.25, .25) and [f * c for c in q] == r: b[i] = f * b[j]; break
            else: seen.append((i, r))
            if not any(r): b[i] = 0.0
    t = rng.random()
    if t < .45: G = spd(rng, n)
    elif t < .75: # indefinite, often definite on the null space
        G = spd(rng, n); w = rng.choice([.5, 3, 20])
        r = A[rng.randrange(len(A))] if rng.random() < .7 else [rng.gauss(0, 1) for _ in range(n)]
        G = [[G[i][j] - w * r[i] * r[j] for j in range(n)] for i in range(n)]
    elif t < .9: # singular but definite on the null space, or only semidefinite
        G = [[0.0] * n for _ in range(n)]
        for i in range(n): G[i][i] = float(rng.choice([0, 1, 2]))
    elif t < .95: # much flatter in one direction
        G = spd(rng, n); w = [rng.gauss(0, 1) for _ in range(n)]; k = rng.choice([1e3, 1e5, 1e7])
        G = [[G[i][j] + k * w[i] * w[j] for j in range(n)] for i in range(n)]
    else: G = [[float(rng.randint(-2, 3)) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n): G[i][j] = G[j][i] if rng.random() < .6 else rng.choice([0., 9., -5.])
    c = [rng.gauss(0, 2) for _ in range(n)]
    s = rng.choice([1, 1, 1, 1e-3, 1e4])
    return prob([[s * v for v in r] for r in G], [s * v for v in c], A, b)

def sequences(rng, count):
    out = []
    for q in range(count):
        m = rng.randint(1, 6)
        out.append(("s%d" % q, "\n".join(["SCN s%d %d" % (q, m)] + [one(rng) for _ in range(m)]) + "\n"))
    return out

def from_model(rng, outs, per=20, limit=None):
    ps, seen = [], set()
    for out in outs:
        for m in re.finditer(r'(?m)^"VERIF-QP (.*)"$', out):
            if m.group(1) in seen: continue
            seen.add(m.group(1))
            p = json.loads(m.group(1).replace('\\"', '"'))
            f = lambda v: [float(x) for x in v]
            ps.append(prob([f(r) for r in p["G"]], f(p["c"]), [f(r) for r in p["A"]], f(p["b"])))
    rng.shuffle(ps)
    ps = ps[:limit]
    return [("m%d" % i, "SCN m%d %d\n" % (i, len(ps[i:i + per])) + "\n".join(ps[i:i + per]) + "\n") for i in range(0, len(ps), per)]
