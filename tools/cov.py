#!/usr/bin/env python3
"""cov.py PROP...: which lines of the library do the quick histories of these properties run? (development aid)
Builds the harnesses with gcov, runs the same scripts, skips trace validation, prints what was never executed."""
import sys, os, glob, subprocess, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import core, props
COV = "/tmp/vita-cov"
subprocess.run(["rm", "-rf", COV]); os.makedirs(COV); os.umask(0)
orig = core.build
n = [0]
def build(ctx, harness, sanitize=True, extra=(), link=(), tag=""):
    key = (harness, sanitize, tuple(extra), tag)
    if key in ctx.bins: return ctx.bins[key]
    d = ctx.dir
    n[0] += 1
    ctx.dir = os.path.join(COV, str(n[0])); os.makedirs(ctx.dir, 0o777)
    try:
        e = orig(ctx, harness, False, [*extra, "--coverage", "-fprofile-update=atomic", "-DHX_COV"], [*link, "--coverage"], tag)
    finally:
        ctx.dir = d
    subprocess.run(["chmod", "-R", "777", COV])
    ctx.bins[key] = e
    return e
core.build = build
core.validate = lambda *a, **k: []
for p in sys.argv[1:]:
    ctx = core.Ctx(p, "quick", 1)
    try:
        props.PROPS[p]["run"](ctx)
    except core.Err as e:
        print("ERR", p, str(e)[:200])
    ctx.close()
hit = collections.defaultdict(dict)
for g in glob.glob(COV + "/**/*.gcda", recursive=True):
    o = subprocess.run(["gcov", "-b", "-c", "-t", "-o", os.path.dirname(g), g], capture_output=True, text=True, cwd=COV).stdout
    f, last = None, None
    for l in o.splitlines():
        m = re.match(r"\s*(-|#####|=====|\d+)\*?:\s*(\d+):(.*)", l)
        if m:
            c, no, t = m.groups()
            if no == "0" and t.startswith("Source:"): f = t[7:]
            last = int(no)
            if c != "-" and last: hit[f][last] = (hit[f].get(last, (0,))[0] + (0 if c[0] in "#=" else int(c)), t, hit[f].get(last, (0, 0, {}))[2] if last in hit[f] else {})
        m = re.match(r"branch\s+(\d+) (never executed|taken (\d+))", l)
        if m and f and last in hit[f]:
            b = hit[f][last][2]; b[m[1]] = b.get(m[1], 0) + int(m[3] or 0)
for f in sorted(hit):
    if "/src/vita/" not in f: continue
    tot = len(hit[f]); z = [k for k in sorted(hit[f]) if not hit[f][k][0]]
    print(f"== {f}: {tot - len(z)}/{tot}")
    for k in z: print(f"   {k}: {hit[f][k][1].strip()[:120]}")
    for k in sorted(hit[f]):
        c, t, b = hit[f][k]
        if c and any(v == 0 for v in b.values()): print(f"   br {k}: {t.strip()[:110]}  {list(b.values())}")
