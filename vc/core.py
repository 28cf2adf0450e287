"""Shared machinery: build the harness from /repo, run call scripts against the real
library, model-check the specifications with TLC, validate recorded histories with TLC."""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]


class Err(Exception):
    """The check itself could not be carried out (not a verdict)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-{tier}-", dir=base)
        os.chmod(self.dir, 0o711)   # unprivileged harness users pass through
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.opcount = [], [], {}
        self.evals = 0
        self.distinct = set()
        self.violations = []
        self.mc_reports = []
        self.bins = {}
        self.findings = []

    def rng(self, salt):
        return random.Random(f"{self.seed}/{self.prop}/{salt}")

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ building
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:"
                    "max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=0:"
                    "detect_odr_violation=0:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "exitcode=77:abort_on_error=0:print_stacktrace=0",
}


def build(ctx, harness, sanitize=True, extra=(), link=(), tag=""):
    """Compile the library sources of /repo's working tree plus one harness."""
    key = (harness, sanitize, tuple(extra), tag)
    if key in ctx.bins:
        return ctx.bins[key]
    od = os.path.join(ctx.dir, f"o-{harness}-{int(sanitize)}{tag}")
    os.makedirs(od)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not srcs:
        raise Err("no sources in /repo/src")
    flags = ["-std=gnu11", "-g", "-O1", "-w", "-I", os.path.join(REPO, "inc"), "-I", HARN] + list(extra)
    if sanitize:
        flags += SAN
    objs, jobs = [], []
    for i, s in enumerate(srcs + [os.path.join(HARN, harness + ".c")]):
        o = os.path.join(od, f"{i}.o")
        objs.append(o)
        jobs.append(["gcc", *flags, "-c", s, "-o", o])

    def one(c):
        r = subprocess.run(c, capture_output=True, text=True)
        return r.returncode, " ".join(c) + "\n" + r.stderr
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, msg in ex.map(one, jobs):
            if rc:
                raise Err("build failed: " + msg[-3000:])
    exe = os.path.join(od, harness)
    r = subprocess.run(["gcc", *(SAN if sanitize else []), *objs, "-o", exe, *WRAP, *link, "-lm", "-lpthread"],
                       capture_output=True, text=True)
    if r.returncode:
        raise Err("link failed: " + r.stderr[-3000:])
    ctx.bins[key] = exe
    return exe


# ------------------------------------------------------------------ running
def run_scripts(ctx, exe, scripts, env=None, verbose=False, jobs=None, timeout=800):
    """scripts: list of lists of operation lines. Returns the list of event lists."""
    n = len(scripts)
    jobs = max(1, min(jobs or NCPU, n))
    wd = tempfile.mkdtemp(prefix="run-", dir=ctx.dir)
    os.chmod(wd, 0o711)
    e = dict(os.environ, **SANENV, TZ="UTC", LC_ALL="C", HX_TMP=wd)
    e.update(env or {})
    parts = [[] for _ in range(jobs)]
    for i, s in enumerate(scripts):
        parts[i % jobs].append((i, s))

    def one(k):
        sf, ef = os.path.join(wd, f"s{k}"), os.path.join(wd, f"e{k}")
        with open(sf, "w") as f:
            for i, s in parts[k]:
                f.write(f"S {i}\n")
                f.write("".join(x + "\n" for x in s))
        cw = os.path.join(wd, f"cwd{k}")
        os.makedirs(cw, exist_ok=True)
        env2 = dict(e, HX_TMP=cw)
        if verbose:
            env2["HX_VERBOSE"] = "1"
        r = subprocess.run([exe, sf, ef], env=env2, cwd=cw, timeout=timeout, stdin=subprocess.DEVNULL,
                           capture_output=not verbose, text=True, errors="replace")
        if r.returncode:
            raise Err(f"harness failed ({r.returncode}): {(r.stderr or '')[-2000:]}")
        out = []
        with open(ef, errors="replace") as f:
            for ln in f:
                if ln.strip():
                    try:
                        out.append(json.loads(ln))
                    except ValueError:
                        raise Err("unparsable event: " + ln[:300])
        return out
    res = [[] for _ in range(n)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for evs in ex.map(one, range(jobs)):
            for ev in evs:
                res[ev.pop("s")].append(ev)
    cnt = [0] * n
    for k in range(jobs):
        with open(os.path.join(wd, f"e{k}.n")) as f:
            for ln in f:
                a, b = ln.split()
                cnt[int(a)] = int(b)
    ctx.last_nalloc = cnt   # allocations made by each script
    shutil.rmtree(wd, ignore_errors=True)
    return res


# --------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, timeout=800, mem="3g", extra=()):
    md = tempfile.mkdtemp(prefix="tlc-", dir=ctx.dir)
    cmd = ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads=2", f"-Djava.io.tmpdir={md}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Err(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Beh(list):
    refused = False


def model_check(ctx, module, cfg, timeout=800, mem="4g", workers=1, emit=True):
    """Exhaustive exploration of a specification. Returns the emitted behaviours."""
    cache = ctx.__dict__.setdefault("mc_cache", {})
    if (module, cfg) in cache:
        return cache[module, cfg]
    rc, out = tlc(ctx, module, cfg, timeout=timeout, mem=mem, workers=workers)
    m = STATS.findall(out)
    if rc != 0 or "No error has been found" not in out or not m:
        tail = "\n".join(l for l in out.splitlines() if not re.match(r'"BEH|"REF|Parsing|Semantic|TLC2|Running|Starting|\s*$', l))[-1500:]
        raise Err(f"TLC rejected the specification {module}/{cfg} (rc={rc}):\n{tail}")
    gen, dist = int(m[-1][0]), int(m[-1][1])
    ctx.states += dist
    ctx.transitions += gen
    beh = []
    if emit:
        for ln in out.splitlines():
            if ln.startswith('"BEH ') or ln.startswith('"REF '):
                t = json.loads(ln)
                b = Beh(json.loads(t[4:]))
                b.refused = t[0] == "R"   # its last call is outside the contract
                beh.append(b)
    ctx.mc_reports.append(f"{module}/{cfg}: {dist} distinct states, {gen} generated, {len(beh)} transitions emitted")
    ctx.log("TLC", ctx.mc_reports[-1])
    cache[module, cfg] = beh
    return beh


LASTSTATE = re.compile(r"State \d+:.*?(?=\nState \d+:|\n\n|\Z)", re.S)


def _validate_chunk(ctx, module, cfg, traces, timeout, mem, workers, env=None):
    fd, path = tempfile.mkstemp(prefix="tr-", suffix=".json", dir=ctx.dir)
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f, separators=(",", ":"))
    try:
        rc, out = tlc(ctx, module, cfg, env=dict(env or {}, TRACE=path), workers=workers, timeout=timeout, mem=mem)
    finally:
        os.unlink(path)
    m = STATS.findall(out)
    if rc == 0 and "No error has been found" in out and m:
        need = sum(len(t) + 1 for t in traces)
        if int(m[-1][1]) < need:  # every history must have been consumed to its end
            raise Err(f"{module}: {m[-1][1]} states for {need} expected")
        return None, int(m[-1][1])
    dead = "Deadlock reached" in out
    inv = re.search(r"Invariant (\w+) is violated", out)
    prop = re.search(r"(?:Action property|Temporal property|property) (\w+).*violated", out)
    bad = re.search(r"evaluating the nested", out) and re.search(r"(?s)Error: (.{0,400})", out)   # a record of a shape no action knows
    if dead or inv or prop or bad:
        sts = re.findall(r"/\\ sid = (\d+)", out)
        ls = re.findall(r"/\\ l = (\d+)", out)
        if sts and ls:
            why = "no specification action explains this call" if dead else "the record has no meaning in the specification: " + bad.group(1) if bad else f"invariant {(inv or prop).group(1)} violated"
            l = int(ls[-1])
            return (int(sts[-1]) - 1, l - 1 if dead or bad else l - 2, why), 0
    raise Err(f"TLC failed on {module} (rc={rc}):\n" + "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing", "Semantic")))[:6000])


def validate(ctx, module, cfg, traces, timeout=800, chunk_bytes=6_000_000, mem="3g", parallel=None, env=None):
    """Check recorded histories against the trace specification.
    Returns a list of (index, event position, reason)."""
    order = [i for i, t in enumerate(traces) if t]
    chunks, cur, sz = [], [], 0
    # group by content so that identical histories are validated once
    seen, uniq = {}, []
    for i in order:
        s = json.dumps(traces[i], separators=(",", ":"))
        if s in seen:
            continue
        seen[s] = i
        uniq.append((i, len(s)))
    par = parallel or max(1, min(NCPU, 6))
    total = sum(n for _, n in uniq) or 1
    limit = max(400_000, min(chunk_bytes, total // par + 1))
    for i, n in uniq:
        cur.append(i)
        sz += n
        if sz >= limit:
            chunks.append(cur)
            cur, sz = [], 0
    if cur:
        chunks.append(cur)
    bad = []
    ctx.distinct_histories = getattr(ctx, "distinct_histories", 0) + len(uniq)

    def one(c):
        r, st = _validate_chunk(ctx, module, cfg, [traces[i] for i in c], timeout, mem, 2, env)
        return c, r, st
    with cf.ThreadPoolExecutor(par) as ex:
        for c, r, st in ex.map(one, chunks):
            if r:
                bad.append((c[r[0]], r[1], r[2]))
    return bad


RELEASE = 250     # histories replayed on the release build, quick tier


# --------------------------------------------------------------- conformance
def conform(ctx, harness, module, cfg, scripts, env=None, describe=None, link=(), extra=(), sanitize=True,
            jobs=None, min_ops=(), tag="", prep=None, timeout=800, tlc_env=None, release=True):
    """Run the scripts on the real library, validate the recorded histories,
    confirm any rejection by re-running it, report it."""
    exe = build(ctx, harness, sanitize=sanitize, link=link, extra=extra, tag=tag)
    t = time.time()
    traces = run_scripts(ctx, exe, scripts, env=env, jobs=jobs, timeout=timeout)
    t1 = time.time()
    if prep:
        traces = [prep(x) for x in traces]
    ne = sum(len(x) for x in traces)
    for tr in traces:
        for ev in tr:
            k = ev["op"] if ev.get("out") == "ok" else f"{ev['op']}!{ev.get('out')}"
            ctx.opcount[k] = ctx.opcount.get(k, 0) + 1
    alias = lambda o: {o, o.replace("!exit", "!abort")}   # refused either way
    missing = [o for o in min_ops if not (alias(o) & set(ctx.opcount))]
    bad = validate(ctx, module, cfg, traces, timeout=timeout, env=tlc_env)
    t2 = time.time()
    ctx.traces += sum(1 for x in traces if x)
    ctx.events += ne
    ctx.evals += len(scripts)
    ctx.log(f"{harness}: {len(scripts)} histories, {ne} events; run {t1-t:.1f}s, validate {t2-t1:.1f}s, rejected {len(bad)}")
    for i in range(0, len(scripts), max(1, len(scripts) // 3)):
        if len(ctx.samples) < 8:
            ctx.samples.append({"script": scripts[i][:12], "events": len(traces[i])})
    for rnd in range(5):
        again = False
        for idx, pos, why in bad:
            ok = False
            for _ in range(3):
                tr = run_scripts(ctx, exe, [scripts[idx]], env=env)
                if prep:
                    tr = [prep(x) for x in tr]
                b = validate(ctx, module, cfg, tr, env=tlc_env)
                if b:
                    ok, pos, why = True, b[0][1], b[0][2]
                    break
            if not ok:
                ctx.notes.append(f"rejection of history {idx} did not repeat; ignored")
                ctx.log("rejection did not repeat, ignored:", scripts[idx][:5], json.dumps(traces[idx][pos])[:300] if 0 <= pos < len(traces[idx]) else pos)
                traces[idx] = tr[0]
                again = True
                continue
            report(ctx, harness, module, scripts[idx], tr[0], pos, why)
        if ctx.violations or not again:
            break
        bad = validate(ctx, module, cfg, traces, timeout=timeout, env=tlc_env)   # what the ignored ones kept from being looked at
    if missing and not ctx.violations:
        raise Err(f"operations never executed by {harness}: {missing}")
    if release and not ctx.violations:
        # the same promises hold when the library is compiled for release: histories in
        # which nothing was refused (refusing misuse is the debug build's job)
        keeps = release if callable(release) else lambda x: all(e.get("out") == "ok" for e in x)
        fine = [s for s, x in zip(scripts, traces) if x and keeps(x)]
        fine = sample(ctx.rng("release" + harness + tag), fine, RELEASE if ctx.quick else 20 * RELEASE)
        if fine:
            conform(ctx, harness, module, cfg, fine, env=env, link=link, extra=[*extra, "-DNDEBUG"], sanitize=sanitize,
                    jobs=jobs, tag=tag + "nd", prep=prep, timeout=timeout, tlc_env=tlc_env, release=False)
    return traces


def faults(ctx, harness, module, cfg, scripts, limit, **kw):
    """Every allocation of every given history fails once: the specification
    demands that the call under way ends the process with a failing status."""
    exe = build(ctx, harness, sanitize=True, link=kw.get("link", ()), extra=kw.get("extra", ()))
    run_scripts(ctx, exe, scripts, env=kw.get("env"))
    out = []
    for s, n in zip(scripts, ctx.last_nalloc):
        out += [[f"failat {k}"] + s for k in range(n)]
    ctx.log(f"{harness}: {sum(ctx.last_nalloc)} allocation points in {len(scripts)} histories")
    if len(out) > limit:
        out = sample(ctx.rng("faults" + harness), out, limit)
    tr = conform(ctx, harness, module, cfg, out, release=False, **kw)
    hit = sum(1 for t in tr if t and t[-1].get("inj"))
    ctx.notes.append(f"{harness}: {len(out)} fault points tried, {hit} failures delivered")
    if not ctx.violations and hit < .9 * len(out):
        raise Err(f"{harness}: only {hit} of {len(out)} planned failures were delivered")
    return tr


def report(ctx, harness, module, script, trace, pos, why):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{ctx.prop}-{ctx.tier}-{len(ctx.violations)+1}.txt")
    with open(path, "w") as f:
        f.write(f"property {ctx.prop}: recorded history is not a behaviour of {module}.tla\n")
        f.write(f"reason: {why}\nharness: {harness}\n\nscript:\n")
        f.write("".join("  " + x[:2000] + "\n" for x in script))
        f.write("\nhistory (>> marks the call that is not explained):\n")
        for i, ev in enumerate(trace):
            f.write((">> " if i == pos else "   ") + json.dumps(ev)[:4000] + "\n")
    ctx.violations.append(path)
    ctx.log("REJECTED:", why, "at", json.dumps(trace[pos])[:600] if 0 <= pos < len(trace) else pos)


# ------------------------------------------------------------------- finding
def finish(ctx, level, assumptions=(), rule=None):
    wall = time.time() - ctx.t0
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces, "samples": ctx.samples,
        "events_validated": ctx.events, "model_checking_runs": ctx.mc_reports,
        "calls_by_outcome": dict(sorted(ctx.opcount.items())),
        "distinct_histories": getattr(ctx, "distinct_histories", 0),
    }
    if level in ("exploration", "fault_enumeration"):
        cov.update(evaluations=ctx.evals, distinct_nontrivial=getattr(ctx, "distinct_histories", 0),
                   rule=rule or "scripts generated from the specification and seeded generators; distinct = different recorded history with at least one call")
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "wall_s": round(wall, 2), "violations": len(ctx.violations), "assumptions": list(assumptions)}
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for k in ctx.findings:
        print(f"KNOWN-FINDING: property={ctx.prop} {k}", flush=True)
    for v in ctx.violations:
        print(f"VIOLATION property={ctx.prop} replay={v}", flush=True)
    ctx.log("violations:", len(ctx.violations), f"wall {wall:.1f}s")
    return 1 if ctx.violations else 0


def known(ctx, key):
    """the text of the listed (not repaired) finding of this property that contains key"""
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) (.*)", ln)
            if m and m.group(1) == ctx.prop and key in m.group(2):
                return m.group(2).strip()
    return None


def sample(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def strat(rng, behs, n, key=lambda b: str(b[-1][0])):
    """sample about n behaviours, evenly over the kinds of their last call"""
    groups = {}
    for b in behs:
        groups.setdefault(key(b), []).append(b)
    left, out = n, []
    for i, (k, g) in enumerate(sorted(groups.items(), key=lambda kv: len(kv[1]))):
        m = min(len(g), max(1, left // (len(groups) - i)))
        out += sample(rng, g, m)
        left -= m
    rng.shuffle(out)
    return out
