#!/usr/bin/env python3
"""mutate.py FILE.c N SEED PROP...: plants N random small changes in one source file of a scratch copy of /repo, one at a
time, and runs the quick checks of the given properties until one reports (development aid: shows blind spots)."""
import sys, os, re, random, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import core, props
f, N, seed, ps = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
R = f"/tmp/mut-{os.getpid()}"
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
core.REPO = R
if os.environ.get("MUT_NCPU"): core.NCPU = int(os.environ["MUT_NCPU"])
MC = {}
class Ctx(core.Ctx):
    def __init__(s, *a):
        super().__init__(*a); s.mc_cache = MC
    def log(s, *a): pass
SUBS = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
        (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+\+", "--"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
        (r"\belsize\b", "elsize / 1 - 1 + 0"), (r"\blen\b", "len - 1"), (r"\bcapacity\b", "len"), (r"\bsize_t\b", "uint8_t"), (r"\bsize_t\b", "int16_t"), (r"\bint64_t\b", "int32_t"), (r"!(?=[a-z(])", "")]
src = open(f"{R}/{f}").read().split("\n")
cand = []
infn = False
for i, l in enumerate(src):
    t = l.strip()
    if not t or t.startswith(("//", "#", "*", "/*", "- ", "VT_DEBUG", "VT_ENFORCE", "assert", "@")) or "VT_DEBUG_PRINTF" in t: continue
    if not l.startswith((" ", "\t")): continue
    code = l.split("//")[0]
    for pat, rep in SUBS:
        for m in re.finditer(pat, code):
            n = code[:m.start()] + rep + code[m.end():]
            cand.append((i, n))
    if t.endswith(";") and not t.startswith(("const", "return", "struct", "int", "size_t", "char", "break", "static", "vt_", "va_list", "FILE", "void", "float", "uint")) or re.match(r"vt_\w+\(", t) and t.endswith(";"):
        cand.append((i, "    ;"))
    if t.startswith("if (") and t.endswith("{"):
        cand.append((i, l.replace("if (", "if (!(", 1)[:-1].rstrip() + ") {"))
        cand.append((i, l[:l.index("if (")] + "if (0) {"))
rng = random.Random(seed)
rng.shuffle(cand)
done = caught = 0
from collections import Counter
for i, n in cand:
    if done >= N: break
    new = list(src); new[i] = n
    open(f"{R}/{f}", "w").write("\n".join(new))
    if subprocess.run(["gcc", "-std=gnu11", "-w", "-I", R + "/inc", "-fsyntax-only", f"{R}/{f}"], capture_output=True).returncode: continue
    done += 1
    how = None
    t0 = time.time()
    for p in ps:
        ctx = Ctx(p, "quick", 1)
        try:
            sys.stdout.flush()
            so = sys.stdout; sys.stdout = open(os.devnull, "w")
            props.PROPS[p]["run"](ctx)
        except core.Err as e:
            how = f"{p}:ERR {str(e)[:150]!r}" if not ctx.violations else p
        except Exception as e:
            how = f"{p}:EXC {e!r}"
        finally:
            sys.stdout = so
            if ctx.violations: how = p
            ctx.close()
        if how: break
    if how and ":" not in how: caught += 1
    else: print(f"{'SURVIVED' if not how else how} {f}:{i+1}\n   - {src[i].strip()}\n   + {n.strip()}", flush=True)
print(f"{f}: {caught}/{done} caught", flush=True)
subprocess.run(["rm", "-rf", R])
