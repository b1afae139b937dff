"""Shared machinery of the checks: builds harnesses from /repo's working tree, runs scenarios, runs TLC."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))
SPEC = os.path.join(VERIF, "spec")

class CheckError(Exception):
    """The machinery (not the code under test) failed."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def scratch():
    """A directory of this run, removed at exit."""
    global _scratch
    try:
        return _scratch
    except NameError:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        return _scratch

# ---- building --------------------------------------------------------------------------------------------------

def java_classes():
    srcs = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    d = os.path.join(BUILD, "java-" + sha(*[read(s) for s in srcs]))
    if not os.path.exists(os.path.join(d, "OK")):
        t = d + ".%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", t] + srcs, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stderr)
        open(os.path.join(t, "OK"), "w").close()
        if os.path.exists(d): shutil.rmtree(t)
        else: os.rename(t, d)
    return d

BASE = ["-std=c++17", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-DFMT_HEADER_ONLY=1", "-DMINI_OPT_SERIALIZATION", "-DMINI_OPT_TRACING", "-isystem", "/usr/include/eigen3"]
FLAGS = BASE + ["-O1"]

def headers_digest():
    fs = sorted(glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True)) + sorted(glob.glob(os.path.join(REPO, "source", "*.h*")))
    return sha(*[f[len(REPO):].encode() + read(f) for f in fs if os.path.isfile(f)])

def compile_one(src, flags, inc, digest, cxx):
    obj = os.path.join(BUILD, "obj", sha(digest, read(src), " ".join(flags), cxx, os.path.basename(src)) + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.%s" % (os.getpid(), sha(src))
        r = subprocess.run([cxx] + flags + inc + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, obj)
    return obj

def harness(name, repo_sources, flags=None, libs=(), cxx="g++"):
    """Builds harness/<name>.cc with the given files of /repo/source (with all of them, if these do not suffice); returns the executable."""
    flags = list(flags or FLAGS)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    digest = headers_digest() + sha(*[read(f) for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))])
    every = sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, "source", "*.cc")))
    t0 = time.time()
    for sources in ([s for s in repo_sources if s in every], every):
        srcs = [os.path.join(VERIF, "harness", name + ".cc")] + [os.path.join(REPO, "source", s) for s in sources]
        with cf.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(lambda s: compile_one(s, flags, inc, digest, cxx), srcs))
        exe = os.path.join(BUILD, "bin", name + "-" + sha(*(objs + flags + list(libs))))
        if os.path.exists(exe): break
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run([cxx] + [f for f in flags if not f.startswith("-D")] + objs + ["-o", tmp, "-pthread"] + list(libs), capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, exe); break
        if sources == every:
            raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
    log("  built %s (%.1fs)" % (name, time.time() - t0))
    return exe

# ---- running scenarios -----------------------------------------------------------------------------------------

def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def _run_batch(exe, scns, per_scn_timeout, env, limit_as):
    """scns: list of (name, text). Returns {name: [event,...]}; a crash or hang becomes a final event e='crash'."""
    out = {}
    todo = list(scns)
    while todo:
        fd, path = tempfile.mkstemp(dir=scratch()); os.close(fd)
        with open(path, "w") as f: f.write("".join(t for _, t in todo))
        opath = path + ".out"
        how = None
        with open(opath, "wb") as of, open(path + ".err", "wb+") as ef:
            p = subprocess.Popen([exe, path], stdout=of, stderr=ef, env=env, cwd=scratch(), preexec_fn=_limits if limit_as else None)
            size, since = 0, time.time()
            while True:   # a harness that prints nothing for too long hangs
                try: p.wait(0.02 if time.time() - since < 1 else 0.3); break
                except subprocess.TimeoutExpired: pass
                n = os.path.getsize(opath)
                if n != size: size, since = n, time.time()
                elif time.time() - since > per_scn_timeout + (10 if size else 30):
                    p.kill(); p.wait(); how = "timeout"; break
            ef.seek(0); err = ef.read()[-4000:]
            if p.returncode == 3: raise CheckError("harness %s rejected its input: %s" % (exe, err.decode(errors="replace")[-500:]))
            if p.returncode and how is None: how = "exit status %d: %s" % (p.returncode, err.decode(errors="replace")[-600:])
        os.unlink(path + ".err")
        cur = {}
        for line in open(opath, "rb"):
            try: e = json.loads(line)
            except ValueError: continue
            cur.setdefault(e["scn"], []).append(e)
        os.unlink(path); os.unlink(opath)
        done = [n for n, _ in todo if n in cur and cur[n][-1]["e"] == "end"]
        for n in done: out[n] = cur[n]
        rest = [(n, t) for n, t in todo if n not in out]
        if how is None:
            if rest: raise CheckError("harness %s ended without finishing %s" % (exe, rest[0][0]))
            break
        if not rest: out[todo[-1][0]] = out[todo[-1][0]] + [{"e": "crash", "scn": todo[-1][0], "how": how}]; break   # at exit
        n = rest[0][0]
        if len(todo) > 1 and how == "timeout" and len(done) < len(todo) and not getattr(_run_batch, "strict", False):
            # the whole batch was slow: retry this scenario alone before blaming it
            solo = _run_batch(exe, [rest[0]], per_scn_timeout, env, limit_as)
            out.update(solo)
        else:
            out[n] = cur.get(n, []) + [{"e": "crash", "scn": n, "how": how}]
        todo = rest[1:]
        if sum(t[-1]["e"] == "crash" for t in out.values()) >= 4: break   # enough to report; the rest may hang as well
    return out

def run_scenarios(exe, scns, per_scn_timeout=20.0, batches=None, env=None, limit_as=True):
    names = [n for n, _ in scns]
    if len(set(names)) != len(names): raise CheckError("duplicate scenario names")
    k = max(1, min(batches or CORES, len(scns)))
    e = dict(os.environ); e.update(env or {})
    out = {}
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(lambda b: _run_batch(exe, b, per_scn_timeout, e, limit_as), [scns[i::k] for i in range(k)]): out.update(r)
    return out

def split_scn(text):
    """Splits concatenated 'SCN name ...' blocks into (name, text)."""
    out = []
    for part in re.split(r"(?m)^(?=SCN\s)", text):
        if part.strip(): out.append((part.split(None, 2)[1], part))
    return out

# ---- TLC -------------------------------------------------------------------------------------------------------

def tlc(module, cfg, workers=1, env=None, timeout=800, heap="3g", args=(), cwd=None):
    """Runs TLC in spec/; returns (exit code, output)."""
    cls = java_classes()
    meta = tempfile.mkdtemp(prefix="meta.", dir=scratch())
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + scratch(), "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + heap,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.CommunityModules:NumOverrides",
           "-cp", ":".join([cls, TLA, CM]), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=cwd or SPEC, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return 124, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nTLC timed out"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def tlc_result(out):
    m = re.search(r'^"VERIF-RESULT (.*)"$', out, re.M)
    return json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")) if m else None

def tlc_mc(module, cfg, workers=CORES, timeout=800, heap="6g", env=None, args=()):
    """Model checking run; returns (states, transitions, output). Failure of the model is an error of the check."""
    rc, out = tlc(module, cfg, workers, env, timeout, heap, args)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise CheckError("TLC on %s/%s: rc=%d\n%s" % (module, cfg, rc, "\n".join(l for l in out.splitlines() if not l.startswith(("Semantic", "Parsing", '"VERIF')))[-3000:]))
    return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", "")), out

def tlc_refute(module, cfg, invariant, workers=4, timeout=300):
    """A run that has to find the invariant violated (the variant of the model is wrong on purpose); returns (states, transitions)."""
    rc, out = tlc(module, cfg, workers, None, timeout, "2g", ())
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if "Invariant %s is violated" % invariant not in out or not m: raise CheckError("TLC on %s/%s did not refute %s: rc=%d\n%s" % (module, cfg, invariant, rc, out[-2000:]))
    return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))

def _validate(module, cfg, events, prop, timeout):
    """One TLC process over a list of scenarios' events: [(name, [ev])]."""
    viol, hits, lines = [], {}, 0
    todo = list(events)
    strikes = 0
    while todo:
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch()); os.close(fd)
        index = []
        with open(path, "w") as f:
            for name, evs in todo:
                for ev in evs:
                    f.write(json.dumps(ev) + "\n"); index.append(name)
        rc, out = tlc(module, cfg, 1, {"TRACE": path, "PROP": prop}, timeout)
        os.unlink(path)
        res = tlc_result(out)
        if rc == 0 and res is not None and res["lines"] == len(index):
            viol += res["viol"]; lines += res["lines"]
            for h, n in res["hits"].items(): hits[h] = hits.get(h, 0) + n
            break
        # The specification could not be evaluated on some event (or no action matches it).
        if rc == 0 and res is None: pos = None
        ls = re.findall(r"(?m)^(?:/\\ )?l = (\d+)", out)
        if viol and (strikes >= 6 or rc == 124):  # enough to report; the rest is left
            log("  %s: %d scenarios left out" % (module, len(todo)))
            break
        if not ls or rc == 124:
            raise CheckError("TLC failed on a trace of %s (rc=%d):\n%s" % (module, rc, "\n".join(x for x in out.splitlines() if not x.startswith("Semantic") and not x.startswith("Parsing"))[-3000:]))
        strikes += 1
        bad = index[int(ls[-1]) - 1]
        viol.append({"rule": prop + ".unexplained" if prop != "all" else "any.unexplained", "scn": bad, "line": 0})
        log("  %s: scenario %s is not a behaviour of the specification" % (module, bad))
        m = re.search(r"(?s)Error: (.{0,400})", out)
        if m: log("   ", m.group(1).replace("\n", " ")[:400])
        done = [x[0] for x in todo].index(bad)
        # events of the scenarios before and after are checked again without it
        todo = todo[:done] + todo[done + 1:]
    return viol, hits, lines

def validate(module, cfg, traces, prop="all", shards=None, timeout=800):
    """traces: {name: [events]}. Returns (violations, hits, lines)."""
    items = sorted(traces.items(), key=lambda kv: -len(kv[1]))
    k = max(1, min(shards or CORES, len(items)))
    parts = [items[i::k] for i in range(k)]
    viol, hits, lines = [], {}, 0
    with cf.ThreadPoolExecutor(k) as ex:
        for v, h, n in ex.map(lambda p: _validate(module, cfg, p, prop, timeout), parts):
            viol += v; lines += n
            for x, c in h.items(): hits[x] = hits.get(x, 0) + c
    return viol, hits, lines
