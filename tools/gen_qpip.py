"""Scenarios for the interior point solver (harness/qpip.cc)."""
import random, math, zlib

def hx(v): return float(v).hex()
def vec(v): return " ".join([str(len(v))] + [hx(a) for a in v])
def mat(m, r, c): return " ".join([str(r), str(c)] + [hx(m[i][j]) for i in range(r) for j in range(c)])

def dot(a, b): return sum(x * y for x, y in zip(a, b))
def spd(rng, n, cond="mild"):
    if rng.random() < 0.2:
        d = [rng.choice([0.25, 0.5, 1, 2, 5, 10]) for _ in range(n)]
        return [[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    B = [[rng.gauss(0, 1) for _ in range(n)] for _ in range(n + 1)]
    G = [[sum(B[k][i] * B[k][j] for k in range(n + 1)) for j in range(n)] for i in range(n)]
    reg = rng.choice([0.3, 1.0, 2.0])
    for i in range(n): G[i][i] += reg
    for i in range(n):
        for j in range(i): G[j][i] = G[i][j]
    s = rng.choice([1, 1, 1, 0.1, 20])
    return [[s * v for v in row] for row in G]

def eqs(rng, n, k):
    for _ in range(200):
        A = [[rng.choice([0, 0, 1, -1, 2, rng.gauss(0, 1)]) for _ in range(n)] for _ in range(k)]
        # Gram-Schmidt: well independent rows only
        ok, basis = True, []
        for row in A:
            v = row[:]
            for b in basis:
                t = dot(v, b); v = [x - t * y for x, y in zip(v, b)]
            nn = math.sqrt(dot(v, v))
            if nn < 0.4: ok = False; break
            basis.append([x / nn for x in v])
        if ok: return A
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(k)]

def bounds(rng, n, m, inside=None, consistent=True, simple=False):
    """m constraints; with `inside`, that point is strictly inside all of them."""
    out = []
    for _ in range(m):
        v = rng.randrange(n)
        a = rng.choice([1, -1]) * (1 if simple else rng.choice([1, 1, 1, 0.1, 0.5, 3, 10]))
        if inside is not None: t = inside[v] - math.copysign(rng.choice([0.05, 0.3, 1, 4]), a) * rng.uniform(0.5, 1.5)
        else: t = rng.choice([0, 1, -1, rng.uniform(-3, 3)])
        out.append((v, float(a), -a * t))
    if inside is None and consistent:
        lo, hi, keep = {}, {}, []
        for v, a, b in out:
            t = -b / a
            if a > 0:
                if t <= hi.get(v, math.inf): lo[v] = max(lo.get(v, -math.inf), t); keep.append((v, a, b))
            else:
                if t >= lo.get(v, -math.inf): hi[v] = min(hi.get(v, math.inf), t); keep.append((v, a, b))
        out = keep
    return out

def scenario(name, G, c, A, b, cons, mu0=1.0, sigma=0.5, kkt=1e-9, comp=1e-6, budget=10, strat="COMPLEMENTARITY", guess="NAIVE",
             gate=0, initc=0, tag="any", sparse=0, user=None, adapt=(0, 0, 0)):
    n = len(c)
    if n > 1 and tag in ("step", "traj", "threshold", "wellposed", "start") and zlib.crc32(repr((name, c)).encode()) % 4 == 0:   # only the lower triangle counts
        G = [[G[i][j] if j <= i else [9.0, -5.0, 0.0, 1e3][(i + j) % 4] for j in range(n)] for i in range(n)]
    L = ["SCN", name, mat(G, n, n), vec(c), mat(A, len(A), n if A else 0), vec(b), str(len(cons))]
    L += ["%d %s %s" % (v, hx(a), hx(bb)) for v, a, bb in cons]
    L += [hx(mu0), hx(sigma), hx(kkt), hx(comp), str(budget), strat, guess, str(gate), str(initc), tag, str(sparse), str(adapt[0]), hx(adapt[1]), hx(adapt[2])]
    if user is not None: L.append(vec(user))
    return "\n".join(L) + "\n"

STR = ["COMPLEMENTARITY", "FIXED_DECREASE", "PREDICTOR_CORRECTOR"]

def single_steps(rng, count):
    """Short runs from arbitrary interior states (USER_PROVIDED)."""
    out = []
    for q in range(count):
        n = rng.randint(1, 5); k = rng.choice([0, 0, 1, min(2, n - 1) if n > 1 else 0, n if rng.random() < .15 else 0]); m = rng.choice([0, 1, 1, 2, 3, 4, 6])
        G = spd(rng, n); c = [rng.gauss(0, 2) for _ in range(n)]
        A = eqs(rng, n, k); b = [rng.gauss(0, 1) for _ in range(k)]
        cons = bounds(rng, n, m, consistent=False); m = len(cons)
        x = [rng.gauss(0, 1.5) for _ in range(n)]; y = [rng.gauss(0, 1) for _ in range(k)]
        mode = rng.random()
        s = [10 ** rng.uniform(-1.5, 1) for _ in range(m)]; z = [10 ** rng.uniform(-1.5, 1) for _ in range(m)]
        if mode < .4:  # slack consistent with x where possible
            for i, (v, a, bb) in enumerate(cons):
                t = a * x[v] + bb
                if t > 0.02: s[i] = t
        out.append(scenario("u%d" % q, G, c, A, b, cons, mu0=10 ** rng.uniform(-3, 1), sigma=rng.choice([.1, .5, .9, 1.0]),
                            kkt=rng.choice([1e-9, 1e-6, 1e-3, 0.5]), comp=rng.choice([1e-6, 1e-3, 0.5, 10.]), budget=rng.choice([1, 1, 2, 3]),
                            strat=rng.choice(STR), guess="USER_PROVIDED", gate=rng.choice([0, 0, 1]), initc=rng.choice([0, 0, 1]), tag="step",
                            user=x + s + y + z))
    return out

def trajectories(rng, count):
    """Runs from the solver's own guesses, every budget."""
    out = []
    for q in range(count):
        n = rng.randint(1, 4); k = rng.choice([0, 0, 0, 1, 1, min(2, n)]); k = min(k, n); m = rng.choice([0, 1, 2, 2, 3, 5])
        G = spd(rng, n); c = [rng.gauss(0, 2) for _ in range(n)]
        A = eqs(rng, n, k); b = [rng.gauss(0, 1) for _ in range(k)]
        cls = rng.random()
        inside = None
        if cls < .6:
            inside = [rng.gauss(0, 1) for _ in range(n)]
            b = [-dot(r, inside) for r in A]
        cons = bounds(rng, n, m, inside=inside, consistent=rng.random() < .8)
        out.append(scenario("t%d" % q, G, c, A, b, cons, mu0=rng.choice([1.0, 1.0, 0.1, 5.0]), sigma=rng.choice([.1, .1, .5, .3]),
                            kkt=rng.choice([1e-9, 1e-9, 1e-6, 1e-3, 0.1]), comp=rng.choice([1e-6, 1e-6, 1e-3, 0.1, 10.]), budget=rng.choice([6, 9, 14]),
                            strat=rng.choice(STR), guess=rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED"]), gate=rng.choice([0, 0, 0, 1]),
                            initc=rng.choice([0, 0, 1]), tag="traj"))
    return out

def wellposed(rng, count, budget=80):
    """Strictly convex, interior meets the equality constraints: must converge."""
    out = []
    for q in range(count):
        n = rng.randint(1, 4); k = min(rng.choice([0, 0, 1, 1, 2]), n - 1); m = rng.choice([0, 1, 2, 3, 4, 5])
        G = spd(rng, n); c = [rng.gauss(0, 3) for _ in range(n)]
        A = eqs(rng, n, k); inside = [rng.gauss(0, 1) for _ in range(n)]
        b = [-dot(r, inside) for r in A]
        cons = bounds(rng, n, m, inside=inside)
        out.append(scenario("w%d" % q, G, c, A, b, cons, sigma=rng.choice([.1, .5, .3]), budget=budget, strat=rng.choice(STR[:2]),
                            guess=rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED"]), initc=rng.choice([0, 0, 0, 1]), tag="wellposed", sparse=1))
    return out

def pressed(rng, count):
    """The cost (and the guess) lies far outside a box that meets the equality constraints; few iterations."""
    out = []
    for q in range(count):
        n = rng.randint(2, 4); k = min(rng.choice([0, 1, 1, 1, 2]), n - 1); scale = rng.choice([5, 40, 40, 400])
        G = spd(rng, n); c = [rng.gauss(0, scale) for _ in range(n)]
        A = eqs(rng, n, k); inside = [rng.uniform(-.8, .8) for _ in range(n)]
        b = [-dot(r, inside) for r in A]
        cons = []
        for v in range(n):
            t = rng.random()
            w = lambda: rng.choice([.05, .3, 1, 2.5])
            if t < .8: cons.append((v, 1.0, -(inside[v] - w())))
            if t > .2: cons.append((v, -1.0, inside[v] + w()))
            if rng.random() < .2: a = rng.choice([-3.0, .5, 10.]); cons.append((v, a, -a * (inside[v] - math.copysign(w(), a))))
        rng.shuffle(cons)
        out.append(scenario("p%d" % q, G, c, A, b, cons, sigma=rng.choice([.1, .1, .5]), budget=rng.choice([3, 5, 8]), strat=rng.choice(STR),
                            guess="SOLVE_EQUALITY_CONSTRAINED" if rng.random() < .75 else "NAIVE", gate=rng.choice([0, 0, 0, 1]), initc=rng.choice([0, 0, 1]), tag="traj"))
    return out

def starts(rng, count):
    """First iterations from every kind of guess; bounds that cut the guess off, touch it, or contradict each other."""
    out = []
    for q in range(count):
        n = rng.randint(1, 5); k = rng.choice([0, 0, 1, 1, 2, n]); k = min(k, n); m = rng.choice([0, 1, 2, 3, 4, 6])
        G = spd(rng, n); c = [rng.gauss(0, rng.choice([1, 3, 30])) for _ in range(n)]
        A = eqs(rng, n, k); b = [rng.choice([0, 1, rng.gauss(0, 2)]) for _ in range(k)]
        mode = rng.random(); cons = []
        for _ in range(m):
            v = rng.randrange(n); a = rng.choice([1., -1., 1., -1., 2., -.5, 10., -.1])
            t = rng.choice([0., 0., 1., -1., rng.gauss(0, 2)])
            cons.append((v, a, -a * t))
        if mode < .3: cons = bounds(rng, n, m, inside=[0.0] * n)
        elif mode < .6: cons = [x for x in cons if x[0] != cons[0][0]] + [(cons[0][0], 1., -rng.choice([.25, 1., 2.])), (cons[0][0], -1., rng.choice([2., 3.5, .5]))] if cons else []
        user, guess = None, rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED", "SOLVE_EQUALITY_CONSTRAINED", "USER_PROVIDED"])
        if guess == "USER_PROVIDED":
            M = len(cons); lo = rng.choice([-2, -5, -10]); user = [rng.gauss(0, 1) for _ in range(n)] + [10 ** rng.uniform(lo, 1) for _ in range(M)] + [rng.gauss(0, 1) for _ in range(k)] + [10 ** rng.uniform(lo, 1) for _ in range(M)]
        out.append(scenario("s%d" % q, G, c, A, b, cons, mu0=rng.choice([1.0, .1, 7.0]), sigma=rng.choice([.1, .5]), budget=rng.choice([1, 2, 3]), strat=rng.choice(STR),
                            guess=guess, initc=rng.choice([0, 1]), tag="start", user=user))
    return out

def degenerate(rng, count):
    """Problems outside the assumptions: singular or indefinite costs, redundant, contradictory or too many equality constraints, empty interiors, non-finite data."""
    out = []
    for q in range(count):
        n = rng.randint(1, 4); k = rng.choice([0, 1, 2, 3]); m = rng.choice([0, 1, 2, 4])
        G = spd(rng, n); c = [rng.choice([0, 1, rng.gauss(0, 2)]) for _ in range(n)]
        kind = rng.choice(["rank", "rank", "zero", "indef", "redundant", "redundant", "contradict", "many", "flat", "nan", "huge", "tiny"])
        if kind == "rank":
            w = [rng.choice([0, 1, -1, rng.gauss(0, 1)]) for _ in range(n)]; G = [[w[i] * w[j] for j in range(n)] for i in range(n)]
            if rng.random() < .5: t = rng.gauss(0, 1); c = [t * v for v in w]     # bounded below along the null space
        if kind == "zero": G = [[0.0] * n for _ in range(n)]
        if kind == "indef": G[0][0] -= rng.choice([5, 30])
        A = eqs(rng, n, min(k, n)); x = [rng.gauss(0, 1) for _ in range(n)]
        b = [-dot(r, x) for r in A]
        if kind in ("redundant", "contradict", "many"):
            A = A or eqs(rng, n, 1); A = A + [[2 * v for v in A[0]]] + ([A[0][:]] if rng.random() < .3 else [])
            if kind == "many": A += [[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]
            b = [-dot(r, x) for r in A]
            if kind == "contradict": b[-1] += rng.choice([1e-3, 1, -10])
        cons = bounds(rng, n, m, inside=x if rng.random() < .6 else None, consistent=rng.random() < .5)
        if kind == "flat": v = rng.randrange(n); cons += [(v, 1.0, -x[v]), (v, -1.0, x[v])]
        s = {"huge": 1e6, "tiny": 1e-6}.get(kind)
        if s: G = [[s * v for v in r] for r in G]; c = [s * v for v in c]
        if kind == "nan":
            bad = rng.choice([math.nan, math.nan, math.inf, -math.inf]); where = rng.choice("GcAbi")
            if where == "G": i = rng.randrange(n); j = rng.randrange(n); G[i][j] = G[j][i] = bad
            elif where == "A" and A: A[0][rng.randrange(n)] = bad
            elif where == "b" and b: b[0] = bad
            elif where == "i" and cons: v, a, _ = cons[0]; cons[0] = (v, a, bad)
            else: c[rng.randrange(n)] = bad
        out.append(scenario("d%d" % q, G, c, A, b, cons, mu0=rng.choice([1.0, .01]), sigma=rng.choice([.1, .5]), kkt=rng.choice([1e-9, 1e-6, 1e-2, 1.]), comp=rng.choice([1e-6, 1e-2, 1.]),
                            budget=rng.choice([2, 6, 15]), strat=rng.choice(STR), guess=rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED"]), initc=rng.choice([0, 0, 1]), tag="degenerate_" + kind))
    return out

def thresholds(rng, count):
    """Tolerances a little above or below what some iteration leaves, with each residual in turn the largest."""
    out = []
    for q in range(count):
        n = rng.randint(1, 6); k = min(rng.choice([0, 0, 1, 1, 2, 3]), n); m = rng.choice([0, 1, 2, 3, 5, 8])
        G = spd(rng, n); c = [rng.gauss(0, 2) for _ in range(n)]
        A = eqs(rng, n, k); b = [rng.gauss(0, 1) for _ in range(k)]
        lead = rng.choice(["own", "own", "dual", "eq", "ineq", "ineq", "comp", "idle"])
        if lead == "own":
            inside = [rng.gauss(0, 1) for _ in range(n)]
            if rng.random() < .8: b = [-dot(r, inside) for r in A]
            cons = bounds(rng, n, m, inside=inside); user = None
        else:
            cons = bounds(rng, n, m, consistent=False); m = len(cons); user = []
            x = [rng.gauss(0, 1.5) for _ in range(n)]; y = [rng.gauss(0, 1) for _ in range(k)]
            s = [10 ** rng.uniform(-1.5, 1) for _ in range(m)]; z = [10 ** rng.uniform(-1.5, 1) for _ in range(m)]
            if lead == "dual": c = [50 * v for v in c]; s = [.1 * v for v in s]
            if lead == "eq": A = [[30 * v for v in r] for r in A]; b = [200 * v for v in b]; s = [.1 * v for v in s]
            if lead == "ineq": s = [rng.choice([1e-3, 1e-2, 30]) for _ in range(m)]; z = [.1 * v for v in z]
            if lead == "comp": z = [100 * v for v in z]
            if lead == "idle":   # at the unconstrained minimiser, which violates bounds that have next to no multiplier
                A, b, y, k = [], [], [], 0
                c = [-dot(G[i], x) for i in range(n)]; cons = []
                for _ in range(max(m, 1)):
                    v = rng.randrange(n); a = rng.choice([1., -1., 3., -.5]); cons.append((v, a, -a * x[v] - abs(rng.gauss(0, 3))))
                s = [10 ** rng.uniform(-3, 0) for _ in cons]; z = [10 ** rng.uniform(-13, -8) for _ in cons]
            user = x + s + y + z
        both = rng.random(); f = lambda: rng.choice([.5, .9, .97, .999, 1.001, 1.03, 1.2])
        out.append(scenario("h%d" % q, G, c, A, b, cons, mu0=rng.choice([1e-10, 1e-6] if lead == "idle" else [1.0, 1.0, .1, 5.0]), sigma=rng.choice([.1, .5, .9]), budget=rng.choice([4, 6, 9]),
                            strat=rng.choice(STR), guess="USER_PROVIDED" if user else rng.choice(["NAIVE", "SOLVE_EQUALITY_CONSTRAINED"]), gate=rng.choice([0, 0, 1]), initc=rng.choice([0, 0, 0, 1]),
                            tag="threshold", user=user, adapt=(rng.choice([1, 1, 2, 2, 3, 4, 5]), f() if both < .8 else 0, f() if both > .7 else 0)))
    return out

def generate(rng, steps, trajs, wells, press=0, start=0, degen=0, thresh=0):
    return thresholds(rng, thresh) + degenerate(rng, degen) + starts(rng, start) + single_steps(rng, steps) + trajectories(rng, trajs) + wellposed(rng, wells) + pressed(rng, press)

if __name__ == "__main__":
    import sys
    rng = random.Random(int(sys.argv[1])); sys.stdout.write("".join(generate(rng, *map(int, sys.argv[2:5]))))
