#!/usr/bin/env python3
"""mkbug.py FILE: FILE is Python defining BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C text | demo_sh=text, files={})].
Writes seeded/<id>/ from /repo's HEAD (patch made in a scratch worktree)."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
# exit 0: behaves; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
gcc -g -w -fsanitize=address -fno-omit-frame-pointer -Iinc "$d/demo.c" lib/libvita.a -lm -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
for b in ns["BUGS"]:
    w = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new, *nth in b["edits"]:
        p = f"{w}/r/{f}"
        s = open(p).read()
        n = nth[0] if nth else 0
        assert s.count(old) > n and (nth or s.count(old) == 1), (b["id"], f, s.count(old), old)
        i = -1
        for _ in range(n + 1):
            i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    base = {f: subprocess.run(["git", "-C", "/repo", "show", f"39ee2d6:{f}"], capture_output=True, text=True).stdout.splitlines() for f, *_ in b["edits"]}
    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    for l in rem:
        if not any(l in v for v in base.values()):
            print("  WARNING", b["id"], "touches an own line:", l.strip())
    if not rem:
        print("  NOTE", b["id"], "removes no line")
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(b.get("demo_sh", SH))
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in b:
        open(d + "/demo.c", "w").write(b["demo"])
    for n, t in b.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("wrote", b["id"])
