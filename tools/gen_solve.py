"""Well-posed nonlinear problems with a known solution (harness/solve.cc)."""
import json, math, random
from gen_qpip import hx, vec, dot
from gen_nls import residual, scenario

def ortho(rng, n):
    Q = []
    while len(Q) < n:
        v = [rng.gauss(0, 1) for _ in range(n)]
        for u in Q: d = dot(u, v); v = [a - d * b for a, b in zip(v, u)]
        s = math.sqrt(dot(v, v))
        if s > .2: Q.append([a / s for a in v])
    return Q

def conditioned(rng, rows, n, lo, hi):
    """A matrix with singular values in [lo, hi]."""
    U, V = ortho(rng, rows), ortho(rng, n); k = min(rows, n); s = [rng.uniform(lo, hi) for _ in range(k)]
    return [[sum(s[t] * U[t][i] * V[t][j] for t in range(k)) for j in range(n)] for i in range(rows)]

def solve_sym(M, b):
    n = len(b); M = [list(r) + [v] for r, v in zip(M, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i])); M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i: f = M[r][i] / M[i][i]; M[r] = [a - f * c for a, c in zip(M[r], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]

def curved(rng, R, P, size):
    """Quadratic terms whose Hessians have the given size (all rows together)."""
    Q = [[[rng.gauss(0, 1) for _ in range(P)] for _ in range(P)] for _ in range(R)]
    h = math.sqrt(sum((q[i][j] + q[j][i]) ** 2 for q in Q for i in range(P) for j in range(P)))
    return [[[size * v / h for v in row] for row in q] for q in Q]

def block(rng, idx, J, value, xs, size):
    """A residual over the variables idx with the given Jacobian and value at xs."""
    R, P = len(J), len(idx); p = [xs[i] for i in idx]
    Q = curved(rng, R, P, size) if size > 0 else None
    a, c0 = [], []
    for r in range(R):
        row = list(J[r])
        if Q: row = [row[j] - sum((Q[r][i][j] + Q[r][j][i]) * p[i] for i in range(P)) for j in range(P)]
        quad = sum(p[i] * Q[r][i][j] * p[j] for i in range(P) for j in range(P)) if Q else 0.0
        a.append(row); c0.append(value[r] - dot(row, p) - quad)
    return residual(R, idx, c0, a, Q, fixedp=rng.choice([0, 1]))

def params(rng, bounds):
    ls = rng.choice(["ARMIJO_BACKTRACK", "POLYNOMIAL_APPROXIMATION", "POLYNOMIAL_APPROXIMATION"])
    lam0 = rng.choice([0, 0, 0, 1e-3, 1e-2]); 
    kkt = rng.choice([1e-9, 1e-10, 1e-12]); grad = rng.choice([1e-5, 1e-6, 1e-7, 1e-8])
    if bounds: grad = max(grad, 2.01 * bounds * math.sqrt(kkt) * rng.choice([1, 1, 3]))      # what the inner tolerance allows
    return dict(maxIter=rng.choice([15, 30, 60]), maxQp=rng.choice([20, 30]), kkt=kkt, abs=rng.choice([1e-12, 1e-14, 1e-8]), rel=rng.choice([1e-3, 1e-5, 1e-7, 0]), grad=grad,
                maxLS=rng.choice([2, 2, 4, 7]), ls=ls, tau=rng.choice([.8, .5, .3]), pen0=rng.choice([1., .01, 10.]), penScale=rng.choice([1.01, 1.1, 1.5]), rho=rng.choice([.1, .3]),
                lam0=lam0, lamFail=rng.choice([1e-2, 1e-3]), decS=rng.choice([.1, .3]), decR=rng.choice([.8, .5]), maxLam=rng.choice([1., 100.]), minLam=rng.choice([0, 0, 1e-6]) if lam0 else 0, eig=rng.choice([0, 0, 1]))

def problem(rng, name, curv=None, resid=None, radius=None, scale=None):
    n = rng.choice([1, 2, 2, 3, 3, 4]); xs = [rng.gauss(0, 1.5) for _ in range(n)]
    K = rng.choice([0, 0, 1, 1, 2]); K = min(K, n - 1) if rng.random() < .85 else min(K, n)
    order = list(range(n)); rng.shuffle(order)
    m_act = min(rng.choice([0, 0, 0, 1, 1, 2]), n - K); m_in = rng.choice([0, 0, 1, 2])
    rows = n + rng.choice([0, 1, 2, 3]); cols = n
    lo = rng.choice([.3, .5, .8, 1.]); J = conditioned(rng, rows, n, lo, 2 * lo if rng.random() < .5 else 2.)
    A = conditioned(rng, K, n, .5, 1.5) if K else []
    curv = rng.choice([0, .02, .05, .1, .1, .3]) if curv is None else curv
    resid = rng.choice([0, 0, .05, .3, 1.5]) if resid is None else resid
    radius = rng.choice([0, .1, .3, .5, 1., 3.]) if radius is None else radius
    bounds, g = [], [0.0] * n
    act = order[:m_act]
    for v in act:
        a = rng.choice([1., -1., .5, -3.]); bounds.append((v, a, -a * xs[v])); z = rng.choice([.1, .5, 1.5]); g[v] += a * z
    for _ in range(m_in):
        v = rng.randrange(n); a = rng.choice([1., -1., .5, -3.])
        t = xs[v] - math.copysign(rng.choice([.2, 1., 3.]), a); bounds.append((v, a, -a * t))
    y = [rng.gauss(0, .5) if resid or m_act else 0.0 for _ in range(K)]
    for k in range(K):
        for v in range(n): g[v] += A[k][v] * y[k]
    JTJ = [[sum(J[r][i] * J[r][j] for r in range(rows)) for j in range(n)] for i in range(n)]
    w = solve_sym(JTJ, g); rs = [dot(J[r], w) for r in range(rows)]
    if rows > n and resid:   # a component that no step can remove
        e = [rng.gauss(0, 1) for _ in range(rows)]
        t = solve_sym(JTJ, [sum(J[r][i] * e[r] for r in range(rows)) for i in range(n)])
        e = [e[r] - dot(J[r], t) for r in range(rows)]; s = math.sqrt(dot(e, e)) or 1.0
        rs = [a + resid * b / s for a, b in zip(rs, e)]
    if scale is None: scale = rng.choice([1., 1., 1., 1., 20., 200.])     # large costs have large multipliers
    if scale != 1: J, rs, curv = [[scale * v for v in row] for row in J], [scale * v for v in rs], scale * curv
    ccurv = curv; curv = curv / scale
    costs, r = [], 0
    while r < rows:
        R = min(rng.randint(1, 3), rows - r); idx = list(range(n)); rng.shuffle(idx)
        costs.append(block(rng, idx, [[J[r + q][v] for v in idx] for q in range(R)], rs[r:r + R], xs, ccurv * math.sqrt(R / rows))); r += R
    es, r = [], 0
    while r < K:
        R = min(rng.randint(1, 2), K - r); idx = list(range(n)); rng.shuffle(idx)
        es.append(block(rng, idx, [[A[r + q][v] for v in idx] for q in range(R)], [0.0] * R, xs, (curv * math.sqrt(R / K)) if rng.random() < .7 else 0)); r += R
    rng.shuffle(bounds)
    def start():
        d = [rng.gauss(0, 1) for _ in range(n)]; s = math.sqrt(dot(d, d)); x0 = [x + radius * v / s for x, v in zip(xs, d)]
        for v, a, b in bounds:    # the start satisfies the bounds
            t = -b / a
            if a * x0[v] + b < 0: x0[v] = t if rng.random() < .3 else xs[v] + .3 * (t - xs[v])
        return x0
    x0 = start()
    moves = [[a - b for a, b in zip(start(), xs)] for _ in range(rng.choice([0, 0, 1]))]
    par = params(rng, len(bounds))
    text = scenario(name, "solve", n, costs, es, bounds, rng.choice(["add", "none"]), par, x0, cbmode=0)
    return text + "SOL " + vec(xs) + " %d" % (1 + len(moves)) + "".join(" " + vec(m) for m in moves) + " 0\n"

def generate(rng, count, pre="v", **kw): return "".join(problem(rng, "%s%d" % (pre, q), **kw) for q in range(count))

def number(s):
    if isinstance(s, (int, float)): return float(s)
    if "/" in s: a, b = s.split("/"); return int(a) / int(b)
    return float.fromhex(s) if "0x" in s else float(s)

def replays(runs, limit=None, rng=None):
    """The runs of the model (printed by Solve_MC), one scenario for each instance with all its outcomes."""
    by = {}
    for r in runs: by.setdefault(json.dumps([r["prob"], r["par"], r["x0"]], sort_keys=True), []).append(r)
    keys = sorted(k for k in by if max(r["k"] for r in by[k]) <= 12 and all(r["term"] != "stuck" for r in by[k]))     # longer runs amplify round-off; a stuck model has met a singular subproblem
    if limit and rng and len(keys) > limit: keys = rng.sample(keys, limit)
    out = []
    for q, k in enumerate(keys):
        r = by[k][0]; p, m = r["prob"], r["par"]; N = number
        fn = lambda g: residual(g["R"], [i - 1 for i in g["idx"]], [N(v) for v in g["c0"]], [[N(v) for v in row] for row in g["a"]], [[[N(v) for v in row] for row in Q] for Q in g["Q"]])
        par = dict(maxIter=m["maxIter"], maxQp=m["maxQp"], kkt=N(m["kktTol"]), abs=N(m["absTol"]), rel=N(m["relTol"]), grad=N(m["gradTol"]), maxLS=m["maxLS"], ls=m["ls"], tau=N(m["tau"]), pen0=N(m["pen0"]),
                   penScale=N(m["penScale"]), rho=N(m["rho"]), lam0=N(m["lam0"]), lamFail=N(m["lamFail"]), decS=N(m["decS"]), decR=N(m["decR"]), maxLam=N(m["maxLam"]), minLam=N(m["minLam"]))
        text = scenario("m%d" % q, "model", p["n"], [fn(g) for g in p["costs"]], [fn(g) for g in p["eqs"]], [(b["v"] - 1, N(b["a"]), N(b["b"])) for b in p["ineq"]], "none", par, [N(v) for v in r["x0"]], cbmode=0)
        text += "SOL " + vec([0.0] * p["n"]) + " 1"
        outcomes = [] if p["ineq"] else by[k]      # the model solves subproblems with bounds exactly, the interior point solver does not
        text += " %d" % len(outcomes) + "".join(" %s %d %s" % (o["term"], o["k"], vec([N(v) for v in o["x"]])) for o in outcomes) + "\n"
        out.append(("m%d" % q, text))
    return out

if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(random.Random(int(sys.argv[1])), int(sys.argv[2])))
