"""Valid and malformed inputs for harness/inputs.cc."""
import itertools, json, re

MAXI, MINI = 2147483647, -2147483648
def found(out, tag): return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"%s (.*)"$' % tag, out)]
def lst(v): return "%d %s" % (len(v), " ".join(map(str, v))) if v else "0"
def params(d): return "%d %s" % (len(d), " ".join("%s %s" % (k, v) for k, v in d))
def pack(steps_by, name, head, limit=40):
    out = []
    for k in range(0, len(steps_by), limit):
        part = steps_by[k:k + limit]
        out.append(("%s_%d" % (name, k // limit), "SCN %s_%d %s %d\n" % (name, k // limit, head, len(part)) + "\n".join(part) + "\n"))
    return out

def nls(rng, devs, pairs):
    """Deviations of the model, from several problems; guesses of wrong dimensions among them."""
    singles = [d for d in devs if len(d) == 1]; doubles = [d for d in devs if len(d) > 1]
    rng.shuffle(doubles)
    vals = ["-2", "-1", "0", "1e-3", "1", "2"]   # the three dampings together
    triples = [[["min_lambda", a], ["lambda_initial", b], ["max_lambda", c]] for a, b, c in itertools.product(vals, repeat=3)]
    out = []
    extra = lambda: [("strategy", rng.choice(["armijo", "poly"])), ("eigenvalues", rng.choice("01"))]
    for p in range(6):
        steps = ["0 " + params(list(map(tuple, d)) + extra()) for d in (singles + [[]])]
        part = doubles[p::6][:pairs] + triples[p % 3::3]
        steps += ["0 " + params(list(map(tuple, d)) + extra()) for d in part]
        steps += ["%d %s" % (off, params(extra() + list(map(tuple, rng.choice([[], rng.choice(singles)]))))) for off in (-1, 1, 2, 7) if not (p == 4 and off < -1)]
        rng.shuffle(steps)
        out += pack(steps, "nls%d" % p, "nls %d" % p)
    return out

def shape(g, gc, c, ar, ac, b, vs, zero=0): return "%d %d %d %d %d %d %s %d" % (g, gc, c, ar, ac, b, lst(vs), zero)
def ctors(rng, keep):
    out = []
    for n, gc, c, ar, ac, b in itertools.product((1, 2, 3), (0, 1, 2, 3, 4), (0, 1, 2, 3, 4), (0, 1, 2), (0, 1, 2, 3, 4), (0, 1, 2, 3)):
        wrong = (gc != n) + (c != n) + (b != ar) + (ac != n if ar else 0)
        if wrong <= 1 or rng.random() < keep: out.append(shape(n, gc, c, ar, ac, b, []))
    for n in (1, 2, 3):
        for bad in (-1, 0, n - 1, n, n + 1, MAXI, MINI):
            for vs in ([bad], [0, bad], [bad, 0], [0, 0, n - 1, bad]):
                for ar in {0, 1, n}: out.append(shape(n, n, n, ar, n, ar, vs))
    return [("ctor%d" % k, "SCN ctor%d ctor %s\n" % (k, s)) for k, s in enumerate(out)]

def sequences(rng, seqs):
    out = []
    good = [shape(2, 2, 2, 1, 2, 1, [0, 1]), shape(1, 1, 1, 0, 0, 0, [0]), shape(3, 3, 3, 0, 3, 0, []), shape(3, 3, 3, 2, 3, 2, [0, 2, 2]), shape(2, 2, 2, 0, 0, 0, [0, 0, 1, 1]), shape(4, 4, 4, 1, 4, 1, [])]
    bad = [shape(3, 2, 2, 0, 0, 0, []), shape(2, 2, 3, 0, 0, 0, [0]), shape(2, 2, 2, 2, 2, 1, []), shape(2, 2, 2, 1, 2, 2, [1]), shape(3, 3, 3, 1, 2, 1, []), shape(2, 2, 2, 0, 0, 1, []), shape(2, 2, 2, 0, 0, 0, [2]), shape(2, 2, 2, 1, 2, 1, [0, -1]),
           shape(9, 9, 9, 0, 9, 0, [9]), shape(5, 5, 5, 2, 5, 2, [0, 4, MAXI]), shape(2, 2, 2, 0, 0, 0, [MINI]), shape(7, 7, 3, 0, 0, 0, []), "null"]
    badp = [[("initial_mu", "0")], [("initial_mu", "-1")], [("initial_mu", "nan")], [("sigma", "0")], [("sigma", "-0.5")], [("sigma", "0x1.0000000000001p0")], [("sigma", "nan")], [("termination_kkt_tol", "0")], [("termination_kkt_tol", "-1e-9")],
            [("termination_kkt_tol", "nan")], [("max_iterations", "0")], [("max_iterations", "-1")], [("max_iterations", str(MINI))]]
    goodp = [[], [("sigma", "1")], [("sigma", "1e-3")], [("initial_mu", "1e-8")], [("initial_mu", "100")], [("max_iterations", "1")], [("max_iterations", "25")], [("termination_kkt_tol", "1e-12")], [("termination_kkt_tol", "1e3")], [("termination_complementarity_tol", "0")], [("termination_complementarity_tol", "-1")]]
    for k, calls in enumerate(seqs):
        ga, gb = rng.sample(good, 2); t = rng.random()
        names = {"A": ga, "B": gb}
        if t < .15: names["B"] = shape(2, 2, 2, 0, 0, 0, [0, 1], 1)   # a coefficient of zero
        lines = []; held = None; ready = False
        for c in calls:
            if c.startswith("setup_"):
                n = c[6:]
                if n == "bad":
                    s = rng.choice(bad)
                    if s == "null": lines.append("setup null"); continue
                    n = "X%d" % len(names); names[n] = s
                else: held = n; ready = False
                lines.append("setup " + n)
            elif c in ("solve", "solve_bad"):
                p = list(rng.choice(goodp if c == "solve" else badp))
                p.append(("strategy", rng.choice("012"))); p.append(("guess", rng.choice("0011" + "22" * (ready and held is not None)))); p.append(("gate", rng.choice("01"))); p.append(("muinit", rng.choice("01")))
                lines.append("solve " + params(p))
                if c == "solve" and held is not None and p[-3][1] != "2": ready = False
            elif c == "vars":
                v = rng.choice(["1", "1", "0.5", "2", "0", "-1"]); lines.append("vars 0 %s" % v); ready = held is not None
            else: lines.append("vars %d 1" % rng.choice([-1, 1, 2, 5])); 
        out.append(("ip%d" % k, "SCN ip%d ip %d\n" % (k, len(names)) + "".join("%s %s\n" % kv for kv in names.items()) + "%d\n" % len(lines) + "\n".join(lines) + "\n"))
    return out

def problems(rng, count):
    out = []
    def add(dim, costs, eqs, vs, zero=0, null=0, moved=0, gd=None, prm=()):
        n = "prob%d" % len(out)
        gd = dim if gd is None else gd
        out.append((n, "SCN %s prob %d %d %s %d %s %s %d %d %d %d %s\n" % (n, dim, len(costs), " ".join("%d %s" % (t, lst(i)) for t, i in costs), len(eqs), " ".join(lst(i) for i in eqs), lst(vs), zero, null, moved, max(gd, 0), params(list(prm)))))
    for dim in (0, -1, MINI):
        for gd in (0, 1): add(dim, [], [], [], gd=gd)
    for dim in (1, 2, 3, 5):
        ok = [(0, [0]), (1, [dim - 1]), (0, list(range(dim)))]
        for bad in (-1, dim, dim + 1, dim + 7, MAXI, MINI, -dim):
            for t in (0, 1):
                for where in range(3):
                    for idx in ([bad], [0, bad], [bad, dim - 1]):
                        c = list(ok); c.insert(where, (t, idx)); add(dim, c, [], [], prm=[("strategy", rng.choice(["armijo", "poly"]))])
            for idx in ([bad], [0, bad], [bad, 0]):
                add(dim, ok, [idx], []); add(dim, ok, [[0], idx], []); add(dim, ok, [idx], [0])
            for vs in ([bad], [0, bad], [bad, dim - 1], [0, dim - 1, bad]):
                add(dim, ok, [], vs); add(dim, ok, [[dim - 1]], vs)
        for gd in (0, dim - 1, dim + 1, dim + 6):
            if gd != dim: add(dim, ok, [], [], gd=gd); add(dim, ok, [[0]], [0], gd=gd); add(dim, [(0, [dim])], [], [], gd=gd)
        for z in (1,): add(dim, ok, [], [0], zero=1); add(dim, ok, [[0]], [dim - 1, 0], zero=1)
        for mv in (1,): add(dim, ok, [], [], moved=1); add(dim, ok, [[0]], [0], moved=1)
        add(dim, ok, [], [], null=1); add(dim, ok, [[0]], [0], null=1, gd=0)
    for _ in range(count):
        dim = rng.randint(1, 6)
        r = lambda: [rng.randrange(dim) for _ in range(1)] if rng.random() < .4 else rng.sample(range(dim), rng.randint(1, dim))
        costs = [(rng.randint(0, 1), r()) for _ in range(rng.randint(0, 4))]
        eqs = [r()] if rng.random() < .4 else []
        vs = [rng.randrange(dim) for _ in range(rng.randint(0, 3))] if rng.random() < .5 else []
        gd = dim
        if rng.random() < .6:
            w = rng.choice(["cost", "eq", "var", "guess", "late"]); bad = rng.choice([-1, dim, dim, dim + 1, MAXI, MINI])
            if w == "cost": c = r(); c[rng.randrange(len(c))] = bad; costs.insert(rng.randrange(len(costs) + 1), (rng.randint(0, 1), c))
            elif w == "eq": c = r(); c.insert(rng.randrange(len(c) + 1), bad); eqs.append(c)
            elif w == "var": vs.insert(rng.randrange(len(vs) + 1), bad)
            elif w == "guess": gd = rng.choice([0, dim + 1, dim + 3])
        add(dim, costs, eqs, vs, gd=gd, prm=[("strategy", rng.choice(["armijo", "poly"])), ("max_iterations", str(rng.choice([1, 1, 3, 10]))), ("lambda_initial", rng.choice(["0", "1e-3"]))] if rng.random() < .7 else [])
    return out

def residuals():
    out = []
    def add(*a): n = "res%d" % len(out); out.append((n, "SCN %s res %s\n" % (n, " ".join(map(str, a)))))
    for t, how, idxs in ((1, 1, ([], [0], [0, 1])), (2, 1, ([0], [0, 1], [0, 1, 2]))):
        for i in idxs: add(t, how, lst(i), 3, "quadratic", 0, 0, 0)
    for t, idxs in ((1, ([0], [2], [3], [-1], [MAXI], [MINI], [4])), (2, ([0, 1], [2, 0], [3, 0], [0, 3], [-1, 0], [1, -1], [MINI, MAXI])), (-1, ([0], [0, 1, 2], [2, 3], [-1, 1], [0, 1, 7], [1, MAXI], [MINI], []))):
        for how in (0, 1) if t > 0 else (0,):
            for idx in idxs:
                for n in (1, 3, 4):
                    add(t, how, lst(idx), n, "quadratic", 0, 0, 0)
                    for b in (0, 1, 2, 3): add(t, how, lst(idx), n, "error", 0, 0, b)
                    for h in ((n, n, n), (n, n, n - 1), (n, n, n + 1), (n - 1, n - 1, n - 1), (1, 1, 1), (0, 0, 0), (n, n + 1, n), (n + 1, n, n + 1), (n + 2, n + 2, n + 2)): add(t, how, lst(idx), n, "hessian", *h)
                    for h in ((2, n, 2), (1, n, 2), (3, n, 2), (2, n, 1), (2, n, 3), (2, n - 1, 2), (2, 1, 2), (2, 0, 2), (2, n + 2, 2), (0, n, 0)): add(t, how, lst(idx), n, "jacobian", *h)
                    add(t, how, lst(idx), n, "hessian_null", n, n, n); add(t, how, lst(idx), n, "moved", n, n, n)
    return out
def bounds():
    out = []
    for a in ("0", "-0x0p0", "1", "-1", "0x1p-1074", "-3"):
        for v, n in ((0, 1), (0, 0), (1, 1), (-1, 1), (2, 3), (3, 3), (MAXI, 3), (MINI, 3)):
            out.append(("bound%d" % len(out), "SCN bound%d bound %s 1.5 0.25 %d %d\n" % (len(out), a, v, n)))
    return out
