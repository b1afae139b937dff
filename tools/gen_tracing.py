"""Histories for harness/tracing.cc."""
import json, random, re

CAP = 100000
def printed(out, tag):
    return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'(?m)^"VERIF-%s (.*)"$' % tag, out)]

def sched(name, prog, order, pre): return (name, "SCN %s sched %d %d %s %d %s\n" % (name, pre, len(prog), " ".join("%d %s" % (len(p), " ".join(p)) for p in prog), len(order), " ".join(map(str, order))))

def random_prog(rng, full):
    n = rng.choice([2, 2, 3, 3, 4, 6])
    k = 3 if full else rng.choice([2, 4, 6])
    return [[("export" if rng.random() < (.2 if full else .35) else "submit") for _ in range(rng.randint(1, k))] for _ in range(n)]
def random_order(rng, prog):
    n = len(prog); total = 7 * sum(map(len, prog))
    if rng.random() < .5: return [rng.randint(1, n) for _ in range(total)]
    out = []   # long stretches of one thread
    while len(out) < total: out += [rng.randint(1, n)] * rng.choice([1, 2, 3, 5, 9])
    return out[:total]

def schedules(rng, hs, keep, count, full):
    """full: the collector is filled up to where the model's small queue starts."""
    hs = list(hs); rng.shuffle(hs)
    out = [sched("%s%d" % ("F" if full else "M", k), h["prog"], h["sched"], CAP - rng.choice([0, 1, 1, 2]) if full else rng.choice([0, 0, 1, 7])) for k, h in enumerate(hs[:keep])]
    for k in range(count):
        p = random_prog(rng, full); out.append(sched("%s%d" % ("f" if full else "m", k), p, random_order(rng, p), CAP - rng.choice([0, 1, 2, 3]) if full else rng.choice([0, 3])))
    return out
def free(rng, count):
    return [sched("u%d" % k, [[("export" if rng.random() < .3 else "submit") for _ in range(rng.randint(1, 12))] for _ in range(rng.choice([2, 4, 6]))], [], 0) for k in range(count)]

def bulk(name, counts, nexp, pre): return (name, "SCN %s bulk %d %s %d %d\n" % (name, len(counts), " ".join(map(str, counts)), nexp, pre))
def bulks(rng, quick):
    out = [bulk("b%d" % k, c, e, p) for k, (c, e, p) in enumerate([([0], 1, 0), ([99999], 0, 0), ([100000], 0, 0), ([100001], 0, 0), ([100005], 0, 0), ([1], 0, 99999), ([250000], 1, 0), ([1, 1], 0, 100000),
           ([30000, 30000, 30000], 2, 5), ([40000, 40000, 40000, 40000], 3, 0)])]
    for k in range(3 if quick else 40):
        n = rng.choice([1, 2, 3, 4, 8])
        out.append(bulk("c%d" % k, [rng.choice([0, 1, 7, 500, 20000, 33333, 100000]) for _ in range(n)], rng.randint(0, 4), rng.choice([0, 1, 50000, 99990, 100000, 200001])))
    return out

WORDS = ["", "a", "QPSolve", "with \"quotes\"", "back\\slash", "\\", "\"", "tab\tnew\nline\rnul\0end", "\x01\x1f\x7f", "caf\u00e9 \u4e2d\u6587 \U0001f600", "</script>", "{}", "{0}", "{name}", "%s%n", "a" * 300, "x,y", "'", "\u2028", "\\u0041", "\\\""]
def fields(rng, count):
    out = []
    for q in range(count):
        evs = []
        for _ in range(rng.choice([1, 2, 5, 30])):
            nm = rng.choice(WORDS) if rng.random() < .7 else "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(32, 126), rng.randint(160, 0xd7ff)])) for _ in range(rng.randint(0, 20)))
            big = lambda: rng.choice([0, 1, -1, 999, 1000, 1001, 1999, 123456789, -1000, -1500, 1700000000000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, rng.randint(-2 ** 63, 2 ** 63 - 1), rng.randint(0, 10 ** 9)])
            u = lambda: rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randint(0, 2 ** 32 - 1)])
            evs.append("%s %d %d %d %d" % (nm.encode().hex() or "-", big(), u(), u(), big()))
        out.append(("f_%d" % q, "SCN f_%d fields %d\n%s\n" % (q, len(evs), "\n".join(evs))))
    return out

def program(rng):
    """A random program of scopes and exceptions; mirrors Scopes.May."""
    s, toks, opened = [], [], 0
    limit = rng.randint(4, 24)
    def unwind():
        while True:
            k = s.pop()
            if k == "try": s.append("handler"); return
            if k == "guard": s.append("clean1"); return
    while True:
        grow = len(toks) < limit
        may = (["open", "open", "try", "guard"] if grow and len(s) < 8 else [])
        if s: may += [{"scope": "close", "try": "end", "handler": "done", "guard": "leave", "clean0": "clean", "clean1": "clean"}[s[-1]]]
        t = max([i for i, k in enumerate(s) if k == "try"], default=-1); d = max([i for i, k in enumerate(s) if k[:5] == "clean"], default=-1)
        if t > d and (grow or rng.random() < .3): may += ["throw"] * 2
        if not s and not grow: return toks, opened
        k = rng.choice(may); toks.append(k)
        if rng.random() < .02: toks.append("sleep")
        if k == "open": s.append("scope"); opened += 1
        elif k in ("try", "guard"): s.append(k)
        elif k == "throw": unwind()
        elif k == "leave": s[-1] = "clean0"
        elif k == "clean":
            if s.pop() == "clean1": unwind()
        else: s.pop()
def scopes(rng, progs, count):
    progs = list(progs); rng.shuffle(progs); out = []
    def scn(name, ths): out.append((name, "SCN %s scopes %d %s\n" % (name, len(ths), " ".join("%d %s" % (len(ps), " ".join("%d %s" % (len(p), " ".join(p)) for p in ps)) for ps in ths))))
    for k in range(0, len(progs), 150):
        part = progs[k:k + 150]; n = rng.choice([1, 1, 2, 4])
        scn("s%d" % k, [part[i::n] for i in range(n)])
    for k in range(count): scn("q%d" % k, [[program(rng)[0] for _ in range(rng.choice([1, 5, 20]))] for _ in range(rng.choice([1, 2, 3, 8]))])
    return out
