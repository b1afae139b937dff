"""Histories of solver re-use (harness/reuse.cc)."""
import json, random, re
from gen_qpip import vec, mat, spd, eqs, dot, hx, bounds
import gen_nls

def qp(rng, n, k, m, kind="spd"):
    G = spd(rng, n) if kind == "spd" else [[0.0] * n for _ in range(n)] if kind == "zero" else [[-1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    x0 = [rng.gauss(0, 1) for _ in range(n)]
    A = eqs(rng, n, k) if k else []
    b = [-dot(r, x0) for r in A]
    c = [rng.gauss(0, 2) for _ in range(n)]
    cons = bounds(rng, n, m, inside=x0) if m else []
    return " ".join([mat(G, n, n), vec(c), mat(A, len(A), n if A else 0), vec(b), str(len(cons))] + ["%d %s %s" % (v, hx(a), hx(t)) for v, a, t in cons])

TABLES = [{"plain": (1, 0, 0), "eq": (3, 1, 0), "bounds": (2, 0, 3), "both": (4, 2, 2), "eq2": (5, 2, 0)},
          {"plain": (5, 0, 0), "eq": (4, 1, 0), "bounds": (5, 0, 2), "both": (3, 2, 2), "eq2": (3, 2, 0)},      # equal N + K
          {"plain": (6, 0, 0), "eq": (5, 1, 0), "bounds": (4, 0, 1), "both": (3, 1, 1), "eq2": (4, 2, 0)},      # equal N + K + 2 M
          {"plain": (4, 0, 0), "eq": (4, 1, 0), "bounds": (4, 0, 3), "both": (4, 2, 2), "eq2": (4, 3, 0)}]      # equal N
def ip_par(rng, how, dims):
    strat, guess, budget, mu = rng.choice(["COMPLEMENTARITY", "FIXED_DECREASE"]), rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED"]), rng.choice([3, 10, 25]), rng.choice([1.0, 0.1])
    if how == "corrector": strat, guess = "PREDICTOR_CORRECTOR", "SOLVE_EQUALITY_CONSTRAINED"
    if how == "short": budget = 1
    if how == "reject": mu = rng.choice([-1.0, 0.0])
    user = ""
    if how == "user":
        n, k, m = dims; guess = "USER_PROVIDED"
        user = vec([rng.gauss(0, 1) for _ in range(n)] + [rng.uniform(.1, 2) for _ in range(m)] + [0.0] * k + [rng.uniform(.1, 2) for _ in range(m)])
    return " ".join([hx(mu), hx(rng.choice([.5, .1])), hx(1e-9), hx(1e-6), str(budget), strat, guess, str(rng.choice([0, 0, 1])), str(rng.choice([0, 0, 1])), user])

def qp_scn(rng, name, hist):
    probs, ops, index = [], [], {}; shapes = rng.choice(TABLES)
    for h in hist:
        kind = "zero" if h["how"] == "raise" else "neg" if h["how"] == "indefinite" else "spd"
        key = (h["shape"], kind)
        if key not in index or rng.random() < .3: index[key] = len(probs); probs.append(qp(rng, *shapes[h["shape"]], kind))
        op = h["op"]
        if op == "ip" and ops and rng.random() < .3: op = "ipre"
        ops.append("%s %d %s" % (op, index[key], "" if h["op"] == "ns" else ip_par(rng, h["how"], shapes[h["shape"]])))
    return (name, "\n".join(["SCN %s qp %d" % (name, len(probs))] + probs + [str(len(ops))] + ops) + "\n")

def nls_problem(rng, name):
    n = rng.choice([2, 3]); x0 = [rng.gauss(0, 1) for _ in range(n)]
    costs = gen_nls.prior(rng, n, rng.choice([.3, 1.]), [rng.gauss(0, 1) for _ in range(n)])
    for _ in range(rng.choice([1, 2])):
        P = rng.randint(1, n); R = rng.randint(1, 3)
        costs.append(gen_nls.residual(R, rng.sample(range(n), P), [rng.gauss(0, 1) for _ in range(R)], gen_nls.mat(rng, R, P), gen_nls.quad(rng, R, P, 1.)))
    es = []
    if rng.random() < .75:
        P = rng.randint(1, n); es.append(gen_nls.residual(1, rng.sample(range(n), P), [rng.gauss(0, .3)], [[rng.gauss(0, 1) for _ in range(P)]], gen_nls.quad(rng, 1, P, .3)))
    b = [(v, rng.choice([1., -1.]), 5.) for v in rng.sample(range(n), 2)]
    text = gen_nls.scenario(name, "reuse", n, costs, es, b, rng.choice(["add", "none", "bend"]), dict(gen_nls.params(rng), minLam=0, maxLam=1., lam0=0), x0)
    return n, len(costs) + len(es), text

def nls_scn(rng, name, hist):
    n, f, text = nls_problem(rng, name)
    ops, starts = [], [[rng.gauss(0, 1.5) for _ in range(n)] for _ in range(2)]
    for h in hist:
        mask = {"eq": 0, "both": rng.choice([3, 1, 2])}[h["shape"]]
        x = rng.choice(starts)
        if rng.random() < .1: x = [v * rng.choice([1, 30]) for v in x]
        if h["op"] == "eval": ops.append("eval %d %s" % (mask, vec(x))); continue
        it, ls, lam, thr, stop = rng.choice([4, 8]), rng.choice([2, 3]), rng.choice([0, 0, .2]), -1, -1
        how = h["how"]
        if how == "short": it = 1
        elif how == "restore": ls, it = 0, 5
        elif how == "throw_lin": thr = rng.choice([1, rng.randint(1, f)])
        elif how == "throw_try":
            thr = f + rng.choice([rng.randint(1, 2 * f), f + rng.randint(1, f), rng.randint(1, 6 * f)])
            if rng.random() < .5: x = [v * rng.choice([3, 10]) for v in x]   # more candidates per search
        elif how == "stop": stop = rng.choice([0, 0, 1])
        elif how == "reject": it = -1
        ops.append("solve %d %s %d %d %d %s %d %d %d" % (mask, vec(x), it, ls, rng.choice([0, 1]), hx(lam), rng.choice([0, 1]), thr, stop))
    return (name, "SCN %s nls NLS" % name + text[3:] + "\n".join([str(len(ops))] + ops) + "\n")

def histories(out):
    return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"VERIF-REUSE (.*)"$', out)]

def scenarios(rng, family, hs, rand, length, letters=None):
    mk = qp_scn if family == "ip" else nls_scn
    letters = [h[0] for h in hs if len(h) == 1]
    out = [mk(rng, "%sm%d" % (family, i), h) for i, h in enumerate(hs)]
    out += [mk(rng, "%sr%d" % (family, i), [rng.choice(letters) for _ in range(rng.randint(3, length))]) for i in range(rand)]
    return out
