"""Scenarios for the nonlinear solver (harness/nls.cc)."""
import random, math
from gen_qpip import hx, vec, eqs, dot

def residual(R, idx, c0, a, Q=None, fixedp=0, jmode=0, jf=1.0, nanmode=0, thr=1e9, noise=0.0):
    P = len(idx)
    t = ["poly", R, P] + list(idx) + [fixedp, jmode, hx(jf), nanmode, hx(thr), hx(noise)]
    t += [hx(v) for v in c0] + [hx(v) for row in a for v in row] + [1 if Q else 0]
    if Q: t += [hx(v) for q in Q for row in q for v in row]
    return " ".join(map(str, t))

DEF = dict(maxIter=6, maxQp=10, kkt=1e-6, abs=1e-12, rel=1e-5, grad=1e-6, maxLS=2, ls="POLYNOMIAL_APPROXIMATION", tau=0.8, pen0=1.0, penScale=1.01, rho=0.1,
           lam0=0.0, lamFail=1e-2, decS=0.1, decR=0.8, maxLam=1.0, minLam=0.0, eig=0)
RES = ["SUCCESS", "MAX_ITERATIONS"]

def scenario(name, tag, n, costs, eqs_, bounds, retr, par, x0, cbmode=1, cbstop=-1, script=(), expect=None, script2=None):
    p = dict(DEF); p.update(par)
    L = ["SCN", name, tag, str(n), str(len(costs))] + costs + [str(len(eqs_))] + eqs_ + [str(len(bounds))]
    L += ["%d %s %s" % (v, hx(a), hx(b)) for v, a, b in bounds]
    L += [retr, "%d %d %s %s %s %s %d %s %s" % (p["maxIter"], p["maxQp"], hx(p["kkt"]), hx(p["abs"]), hx(p["rel"]), hx(p["grad"]), p["maxLS"], p["ls"], hx(p["tau"])),
          " ".join(hx(p[k]) for k in ("pen0", "penScale", "rho", "lam0", "lamFail", "decS", "decR", "maxLam", "minLam")), str(p["eig"]),
          vec(x0), "%d %d" % (cbmode, cbstop), str(len(script))]
    L += [vec(l) + " " + vec(t) for l, t in script]
    if script2 is not None: L += [str(len(script2))] + [vec(l) + " " + vec(t) for l, t in script2]
    if expect is None: L.append("-1")
    else: L += [str(len(expect["it"]))] + ["%s %s %s %d" % (r, m, hx(l), c) for r, m, l, c in expect["it"]] + [expect["term"]]
    return "\n".join(L) + "\n"

def params(rng):
    minLam = rng.choice([0, 0, 0, 1e-4]); maxLam = rng.choice([1., 1., 100., 0.05, 1e4])
    return dict(maxIter=rng.choice([1, 3, 6, 6, 10]), maxQp=rng.choice([10, 10, 20, 3, 1]), kkt=rng.choice([1e-6, 1e-6, 1e-8, 1e-3]), abs=rng.choice([1e-12, 1e-12, 1e-4, 0.1]),
                rel=rng.choice([1e-5, 1e-5, 0, 0.1, 0.5, 1]), grad=rng.choice([1e-6, 1e-6, 0, 1e-2, 1e-9]), maxLS=rng.choice([2, 2, 0, 1, 3, 5, 7]),
                ls=rng.choice(["ARMIJO_BACKTRACK", "POLYNOMIAL_APPROXIMATION", "POLYNOMIAL_APPROXIMATION"]), tau=rng.choice([.8, .5, .3, .95]),
                pen0=rng.choice([1., 1., 0.01, 1e-3, 10.]), penScale=rng.choice([1.01, 1.0, 1.5, 3.0]), rho=rng.choice([.1, .1, 0, .5, .9]),
                lam0=max(minLam, min(maxLam, rng.choice([0, 0, 1e-3, 0.05, 1.]))), lamFail=rng.choice([1e-2, 1e-2, 0, 1e-4, 0.3]), decS=rng.choice([.1, .1, 0, .7]), decR=rng.choice([.8, .8, .3, 0]),
                maxLam=maxLam, minLam=minLam, eig=rng.choice([0, 0, 1]))

def rnd(rng, s=1.0): return rng.choice([0.0, 1.0, -1.0, rng.gauss(0, s), rng.gauss(0, s), rng.gauss(0, s)])
def mat(rng, r, c, s=1.0): return [[rnd(rng, s) for _ in range(c)] for _ in range(r)]
def quad(rng, R, P, s): return [[[rng.choice([0, 0, rng.gauss(0, s)]) for _ in range(P)] for _ in range(P)] for _ in range(R)]

def prior(rng, n, w, target):
    """Costs over all variables in blocks of at most three, so that the recorded points are complete."""
    order = list(range(n)); rng.shuffle(order); out = []
    while order:
        idx, order = order[:3], order[3:]; P = len(idx)
        out.append(residual(P, idx, [-w * target[v] for v in idx], [[w if i == j else 0.0 for j in range(P)] for i in range(P)], fixedp=rng.choice([0, 1])))
    return out

def bounds_for(rng, n, m, x0, inside=True):
    out, lo, hi = [], {}, {}
    for _ in range(m):
        v = rng.randrange(n); a = rng.choice([1, -1]) * rng.choice([1, 1, .5, 3])
        t = x0[v] - math.copysign(rng.choice([0.0 if inside else .3, .1, .5, 2]), a) if inside else rng.uniform(-2, 2)
        if a > 0: ok = t + 0.2 <= hi.get(v, math.inf); nlo = t; 
        else: ok = t - 0.2 >= lo.get(v, -math.inf)
        if not ok: continue
        if a > 0: lo[v] = max(lo.get(v, -math.inf), t)
        else: hi[v] = min(hi.get(v, math.inf), t)
        out.append((v, float(a), -a * t))
    return out

def general(rng, count, hard=0.3, pre="g"):
    out = []
    for q in range(count):
        n = rng.choice([1, 1, 2, 2, 2, 3, 4]); x0 = [rng.gauss(0, 1.5) for _ in range(n)]
        harder = rng.random() < hard
        w = rng.choice([1., 1., .3, .1, 0.0 if rng.random() < .3 else 2.])
        costs = prior(rng, n, w, [rng.gauss(0, 1) for _ in range(n)])
        for _ in range(rng.choice([0, 1, 1, 2])):
            P = rng.randint(1, min(n, 3)); R = rng.randint(1, 3); idx = rng.sample(range(n), P)
            kw = dict(fixedp=rng.choice([0, 1]))
            if harder:
                c = rng.random()
                if c < .3: kw.update(jmode=1, jf=rng.choice([-1., -.3, 4., .2]))
                elif c < .5: kw.update(jmode=2, jf=rng.choice([.3, 1., 3.]))
                elif c < .7: kw.update(nanmode=rng.choice([1, 2]), thr=abs(x0[idx[0]]) + rng.choice([.1, .5, 2]))
                else: kw.update(noise=rng.choice([1e-3, .1, 1.]))
            costs.append(residual(R, idx, [rng.gauss(0, 1) for _ in range(R)], mat(rng, R, P), quad(rng, R, P, rng.choice([.3, 1, 2])) if rng.random() < .7 else None, **kw))
        rng.shuffle(costs)
        es = []; K = 0
        if rng.random() < .55:
            for _ in range(rng.choice([1, 1, 2])):
                R = rng.choice([1, 1, 2]); P = rng.randint(1, min(n, 3))
                if K + R > n: continue
                if K + R == n and rng.random() < .6: continue
                K += R; idx = rng.sample(range(n), P)
                kw = dict(jmode=1, jf=rng.choice([-.5, 3.])) if harder and rng.random() < .2 else {}
                es.append(residual(R, idx, [rng.gauss(0, 1) for _ in range(R)], mat(rng, R, P), quad(rng, R, P, .5) if rng.random() < .6 else None, fixedp=rng.choice([0, 1]), **kw))
        m = rng.choice([0, 0, 1, 2, 3]) if es else rng.choice([0, 1, 2, 3, 4])
        b = bounds_for(rng, n, m, x0, inside=rng.random() < .6)
        out.append(scenario("%s%d" % (pre, q), "hard" if harder else "general", n, costs, es, b, rng.choice(["add", "add", "add", "none", "bend", "slow"]), params(rng), x0,
                            cbmode=rng.choice([1, 1, 0]), cbstop=rng.choice([-1, -1, -1, 0, 1, 3])))
    return out

def linear(rng, count, pre="l"):
    """Strictly convex linear least squares, independent consistent constraints, feasible for the bounds at the start."""
    out = []
    for q in range(count):
        n = rng.choice([1, 2, 2, 3, 4]); x0 = [rng.gauss(0, 1) for _ in range(n)]
        start = rng.choice(["any", "any", "stationary", "on_constraints"])   # where the guess lies
        costs = prior(rng, n, rng.choice([1., .5, 2.]), x0 if start == "stationary" else [rng.gauss(0, 2) for _ in range(n)])
        for _ in range(rng.choice([0, 1, 2])):
            P = rng.randint(1, min(n, 3)); R = rng.randint(1, 3)
            idx, J = rng.sample(range(n), P), mat(rng, R, P)
            off = [-dot(J[r], [x0[i] for i in idx]) for r in range(R)] if start == "stationary" else [rng.gauss(0, 1) for _ in range(R)]
            costs.append(residual(R, idx, off, J, fixedp=rng.choice([0, 1])))
        K = rng.choice([0, 0, 1, 1, 2]); K = min(K, n - 1) if rng.random() < .85 else min(K, n)
        inside = list(x0) if start == "on_constraints" else [x + rng.gauss(0, .5) for x in x0]
        A = eqs(rng, n, K)
        es = [residual(1, list(range(n)), [-dot(r, inside)], [r]) for r in A]
        b = []; used = {}
        for _ in range(rng.choice([0, 1, 2, 3])):   # both the start and an equality-feasible point strictly inside
            v = rng.randrange(n); a = rng.choice([1., -1., .5, -3.]); g = rng.choice([.1, .5, 1.5])
            t = (min(x0[v], inside[v]) - g) if a > 0 else (max(x0[v], inside[v]) + g)
            b.append((v, a, -a * t))
        par = dict(DEF, grad=rng.choice([3e-5, 1e-4]), maxIter=40, maxQp=rng.choice([20, 30]), maxLS=rng.choice([2, 4]), ls=rng.choice(["ARMIJO_BACKTRACK", "POLYNOMIAL_APPROXIMATION"]), lam0=rng.choice([0, 0, 1e-3, 1e-2]), kkt=rng.choice([1e-6, 1e-8]), eig=rng.choice([0, 1]))
        out.append(scenario("%s%d" % (pre, q), "linear", n, costs, es, b, rng.choice(["add", "none"]), par, x0, cbmode=rng.choice([0, 1])))
    return out

def scripted(rng, count, pre="s"):
    """One variable; the values the function returns are scripted, so every line-search situation occurs."""
    out = []
    for q in range(count):
        script = []
        for _ in range(8):
            e = rng.choice([1., 2., -1., .5]); J = rng.choice([1., -1., 2., .1, 1e-4 if rng.random() < .3 else 1.])
            script.append(([e, J], [rng.choice([0., .5, .99, 1., 1.2, 2., 5., 1e-7, .999999, math.nan if rng.random() < .3 else 1.5]) * e for _ in range(8)]))
        par = params(rng); par["maxIter"] = rng.choice([3, 6, 8])
        b = [(0, 1., -1000.)] if rng.random() < .3 else []
        out.append(scenario("%s%d" % (pre, q), "script", 1, ["script 1 1 0 0"], [], b, rng.choice(["hold", "add", "slow"]), par, [0.25], cbmode=rng.choice([0, 1]), cbstop=rng.choice([-1, -1, 2, 5]), script=script))
    return out

def edges(rng, count, pre="e"):
    """Candidates whose cost lies next to (or exactly on) a threshold of the line search or of an exit, or whose equality error decides."""
    out = []
    for q in range(count):
        par = params(rng); par["maxIter"] = rng.choice([2, 4, 6]); kind = rng.choice(["cost", "cost", "cost", "tie", "flat", "damping", "first", "both", "both", "both", "infinite", "scaled"])
        d = lambda: rng.choice([1, -1, 1]) * rng.choice([1e-12, 1e-11, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2])
        lit = lambda: (0, rng.choice([0., .1, .3, .5, .9, .999, 1., 1.1, 2.]))
        flat = lambda ps: [v for p in ps for v in p]
        script, script2, eqs_, b, n = [], None, [], [], 1
        if kind == "cost":
            for _ in range(6): script.append(([rng.choice([1., 2., -1.]), rng.choice([1., -1., 2., .3])], flat([(1, d()) if rng.random() < .6 else (rng.choice([2, 3]), d()) if rng.random() < .8 else lit() for _ in range(8)])))
            par["rel"] = rng.choice([1e-5, .1, .5, 1e-9]); par["abs"] = rng.choice([1e-4, .1, .4])
        elif kind == "tie":          # the cost falls by exactly the fraction, or to exactly the tolerance
            e = rng.choice([1., 2.]); par.update(grad=0, abs=rng.choice([1e-12, e * e / 8]), rel=rng.choice([.75, .5, .75]), lam0=par["lam0"])
            for i in range(6): script.append(([e / 2 ** i, 1.], flat([(0, e / 2 ** (i + 1))] * 3)))
        elif kind == "flat":         # no slope: equal merit is a success, and no decrease
            par.update(grad=rng.choice([0, 0, 1e-9]), rel=rng.choice([0, 0, 1e-5, .5]), abs=rng.choice([1e-12, .5, .25]), lam0=.5, maxLam=1., minLam=0.)
            for i in range(6): script.append(([1., 0.], flat([(0, rng.choice([1., 1., 1., .5]))] * 3)))
        elif kind == "damping":      # damping ends up exactly at its maximum
            f = rng.choice([.25, .01, 2.]); par.update(lamFail=f, lam0=rng.choice([0., f / 16]), minLam=0., maxLam=rng.choice([f, f, 10 * f]), maxLS=rng.choice([0, 1]))
            for i in range(6): script.append(([1., 1.], flat([(0, rng.choice([2., 3., .5]))] * 3)))
        elif kind == "first":        # the slope is next to the first order tolerance
            par.update(grad=rng.choice([.25, 1., 1e-3]), lam0=0., minLam=0., abs=1e-12)
            for i in range(6): script.append(([math.sqrt(par["grad"] * (1 + rng.choice([0, d(), d()]))), rng.choice([1., -1., 2.])], flat([lit()] * 3)))
        elif kind == "scaled":       # rejected candidates at all scales of the cost
            par.update(ls="POLYNOMIAL_APPROXIMATION", maxLS=rng.choice([2, 3, 5]), lam0=0., minLam=0., abs=1e-30, grad=1e-30)
            for i in range(6):
                e = rng.choice([1., .3, .1, .01, 1e-3])
                script.append(([e, rng.choice([1., -1., 2.])], flat([(0, e * rng.choice([1., 1.001, 1.05, 1.3, 2.])) for _ in range(4)] + [(0, e * rng.choice([.5, .999, 1.01]))])))
        else:                        # cost of one variable, equality of the other
            n = 2; script2 = []; bad = lambda: rng.choice([math.inf, -math.inf, math.nan])
            for i in range(6):
                script.append(([rng.choice([0.3, .5, 1., 0.]), 1.], flat([lit() if kind == "both" or rng.random() < .8 else (0, bad()) for _ in range(4)])))
                script2.append(([rng.choice([0., .2, 1., -1., -.5]), rng.choice([1., -1., 2.])], flat([(0, rng.choice([0., .05, .2, .5, 1., -.3])) if kind == "both" or rng.random() < .5 else (0, bad()) for _ in range(4)])))
            par.update(pen0=rng.choice([1e-3, 1., 10., 100.]), abs=rng.choice([.1, .12, .25, .5]), rel=rng.choice([1e-5, 0, .1]), lam0=max(par["minLam"], min(par["maxLam"], rng.choice([.01, .5]))))
            eqs_ = ["edge 1 1 1 0"]
        if rng.random() < (.3 if kind != "tie" else 0): b = [(0, 1., -1000.)]
        retr = "hold" if not b or kind == "damping" else rng.choice(["hold", "add"])
        out.append(scenario("%s%d" % (pre, q), "edge", n, ["edge 1 1 0 0"], eqs_, b, retr, par, [0.25] * n, cbmode=rng.choice([0, 1, 1]), script=script, script2=script2))
    return out

def indefinite(rng, count, pre="i", late=.35):
    """Equality constrained problems whose cost has no curvature along some feasible direction (at some point)."""
    out = []
    for q in range(count):
        n = rng.choice([2, 3]); x0 = [rng.gauss(0, 1) for _ in range(n)]
        costs = [residual(1, list(range(n)), [0.0], [[0.0] * n])]          # probe only
        if rng.random() < .6: costs.append(residual(1, [0], [rng.gauss(0, 1)], [[1.0]], [[[rng.choice([0, .5])]]]))
        es = [residual(1, [n - 1], [rng.gauss(0, 1)], [[1.0]])]
        if rng.random() < late:     # curvature disappears after some iterations
            at = rng.choice([0, 1, 2, 3, 4, 5]); e = [.9 ** i for i in range(at + 2)]
            script = [([e[i], 1. if i < at else 0.0], [e[i] * .9] * 4) for i in range(at + 2)]
            par = params(rng); par.update(lam0=0., minLam=0., rel=1e-9, abs=1e-12, grad=1e-9, maxIter=at + 3)
            out.append(scenario("%s%d" % (pre, q), "indef", 2, ["script 1 1 0 0"], [residual(1, [1], [rng.gauss(0, 1)], [[1.0]])], [], "hold", par, [rng.gauss(0, 1), rng.gauss(0, 1)], cbmode=rng.choice([0, 1]), script=script))
            continue
        par = params(rng); par["lam0"] = rng.choice([0, 0, .05]) if par["minLam"] == 0 and par["maxLam"] >= .05 else par["minLam"]; par["lam0"] = max(par["lam0"], par["minLam"])
        par["decS"] = rng.choice([0, 0, .1]); par["rel"] = rng.choice([0, 0, 1e-5]); par["grad"] = 1e-9
        out.append(scenario("%s%d" % (pre, q), "indef", n, costs, es, [], rng.choice(["add", "none"]), par, x0, cbmode=rng.choice([0, 1])))
    return out

def generate(rng, g, h, l, s, i, e=0):
    return "".join(edges(rng, e) + general(rng, g, 0.0, "g") + general(rng, h, 1.0, "h") + linear(rng, l) + scripted(rng, s) + indefinite(rng, i))

if __name__ == "__main__":
    import sys
    rng = random.Random(int(sys.argv[1])); sys.stdout.write(generate(rng, *map(int, sys.argv[2:7])))
