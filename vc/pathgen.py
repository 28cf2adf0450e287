"""Histories for path texts and the filesystem."""


def hx(bs):
    return "x" + "".join("%02x" % b for b in bs)


def path_from_behaviours(rng, behs, per=12):
    out, cur = [], []
    for b in behs:
        h = ["setres x52 %d" % rng.randrange(2)]
        for c in b:
            if c[0] == "set":
                h.append("set " + hx(c[1]))
            elif c[0] == "base":
                h.append(f"base {int(c[1])}")
            elif c[0] == "build":
                h.append(f"build {int(c[1])} {rng.choice(['list', 'n'])} " + " ".join(hx(p) for p in c[2]))
            elif c[0] == "expand":
                h.append(f"expand {int(c[1])} {hx(c[2])} {rng.randrange(2)}")
            else:
                h.append(c[0])
        if b.refused:
            out.append(h)
        else:
            cur += h
            if len(cur) > per * 4:
                out.append(cur)
                cur = []
    if cur:
        out.append(cur)
    return out


def rtext(rng, maxlen=40):
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, rng.randrange(maxlen), rng.choice([200, 255, 256, 1000])])
    if rng.random() < .02:
        n = rng.choice([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000])
    al = rng.choice(["ab", "/" + "abc" * 200] if n > 150 and rng.random() < .4 else ["/a", "/ab.", "/\\ab~ .", "".join(chr(c) for c in range(33, 127))])
    t = [ord(rng.choice(al)) for _ in range(n)]
    if t and rng.random() < .3:
        t[rng.choice([0, -1])] = 47
    if t and rng.random() < .15:
        t = [rng.choice([128, 195, 255])] * 2 + t
    return t


def path_random(rng, n):
    h = ["setres " + hx(rtext(rng)) + f" {rng.randrange(2)}"]
    for _ in range(n):
        r = rng.random()
        if r < .25:
            t = rtext(rng)
            if rng.random() < .3:
                t = [126] * rng.choice([1, 1, 2]) + t
            h.append("set " + hx(t))
            if not t:
                h.append(rng.choice(["pop", "validate", "base 0", "base 1"]))
                h.append("set x2f")
        elif r < .45:
            h.append("pop")
        elif r < .55:
            h.append("validate")
        elif r < .72:
            h.append(f"base {rng.randrange(2)}")
        elif r < .85:
            ps = [[c for c in rtext(rng, 20)[:rng.choice([3, 30])] if c] or [98] for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 9, 17, 33, 40]))]
            h.append(f"build {rng.randrange(2)} {rng.choice(['list', 'n'])} " + " ".join(hx(p) for p in ps))
        elif r < .97:
            h.append("set " + hx([126] * rng.randrange(2) + rtext(rng) + [97]))
            h.append(f"expand {rng.choice([0, 1, 1, 1])} {hx(rtext(rng))} {rng.randrange(2)}")
        else:
            h.append("setres " + hx(rtext(rng)) + f" {rng.randrange(2)}")
    return h


# ---------------------------------------------------------------- filesystem
FSWRAP = ["-Wl,--wrap=mkdir,--wrap=rmdir,--wrap=remove,--wrap=unlink,--wrap=rename,--wrap=opendir"]


def P(c):
    return "/".join(c) or "EMPTY"


def fs_from_behaviours(rng, behs):
    out = []
    for b in behs:
        h, size = [], 0
        for c in b:
            ab = rng.choice(["@", "@", "@", "@@", "@@@"]) if rng.random() < .18 else ""
            if c[0] == "mk":
                size += 1
                h.append(f"mk {c[1]} {P(c[2])} " + (str(size) if c[1] == "f" else P(c[3])))
            elif c[0] == "query":
                h += [f"{q} {ab}{P(c[1])}" for q in ("exists", "isdir", "isfile", "size")]
            elif c[0] == "list":
                h += [f"list{'r' if c[2] else ''} {ab}{P(c[1])} {d} {rng.randrange(2)} {rng.randrange(3)}" for d in (0, 1)]
            elif c[0] == "rename":
                h.append(f"rename {ab}{P(c[1])} {P(c[2])}")
            else:
                h.append(f"{c[0]} {ab}{P(c[1])}")
        out.append(h)
    return out


FNAMES = ["a", "b", "cc", ".h", "..x", "...", ".a.b", "d.e", "long-name_" + "n" * 60]


def fs_random(rng, n, faults=0.0):
    names = rng.sample(FNAMES, rng.choice([2, 3, 4]))
    known = []
    h = []
    size = 100

    def path(deep=4, link=False):
        r = rng.random()
        if known and r < .7:
            p = list(rng.choice(known))
            if rng.random() < .4:
                p = p + [rng.choice(names)]
        else:
            p = [rng.choice(names) for _ in range(rng.randrange(1, deep + 1))]
        if not link and rng.random() < .06:
            p = [p[0], ".."] + p
        if not link and rng.random() < .05:
            p = ["."] + p
        if not link and len(p) > 1 and rng.random() < .05:
            p = p[:1] + [""] + p[1:]
        return p[:6]
    for _ in range(n):
        r = rng.random()
        z = path()
        ab = rng.choice(["@", "@", "@", "@@", "@@@"]) if rng.random() < .18 else ""
        plain = [c for c in z if c not in (".", "..", "")]
        if r < .12:
            size += 1
            if rng.random() < .12:
                h.append(f"mk p {P(plain)} -")
            else:
                big = rng.choice([2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7, 2**33 + 1, 5 * 10**9]) if rng.random() < .1 else size
                mode = rng.choice(["", "", " 755", " 777", " 600", " 400", " 0", " 4755", " 100"])
                h.append(f"mk f {P(plain)} {rng.choice([big, big, big, 0])}{mode}")
            known.append(plain)
        elif r < .2:
            up = len(plain) - 1
            t = [".."] * rng.randrange(up + 1) + path(3, True)
            t = [x for x in t][:8]
            # never above the scratch directory
            if sum(x == ".." for x in t) <= up:
                h.append(f"mk l {P(plain)} {P(t)}")
                known.append(plain)
        else:
            fault = ""
            if rng.random() < faults:
                fault = rng.randrange(3)
            if r < .3:
                op, fc = f"mkdir {ab}{P(z)}", "mkdir"
                known.append(plain)
            elif r < .48:
                op, fc = f"mkdirp {ab}{P(z)}" + ("/" if rng.random() < .3 else ""), "mkdir"
                known.append(plain)
            elif r < .52:
                op, fc = f"rmdir {ab}{P(plain)}", "rmdir"
            elif r < .58:
                op, fc = f"rmr {ab}{P(plain)}", rng.choice(["rmdir", "remove", "remove", "opendir"])
            elif r < .62:
                op, fc = f"remove {ab}{P(plain)}", "remove"
            elif r < .72:
                y = [c for c in path() if c not in (".", "..", "")]
                op, fc = f"rename {ab}{P(plain)} {P(y)}", "rename"
                known.append(y)
            elif r < .9:
                sl = "/" if rng.random() < .2 else ""
                op, fc = f"{rng.choice(['list', 'listr'])} {ab}{P(z)}{sl} {rng.randrange(2)} {rng.randrange(2)} {rng.randrange(3)}", "opendir"
            else:
                sl = "/" if rng.random() < .2 else ""
                op, fc = f"{rng.choice(['exists', 'isdir', 'isfile', 'size'])} {rng.choice(['EMPTY'] + [ab + P(z) + sl] * 8)}", ""
            if fault != "" and fc:
                h.append(f"sysfail {fc} {fault}")
            h.append(op)
    return h


def fs_deep(rng):
    """Long paths, deep and wide trees."""
    kind = rng.randrange(4)
    if rng.random() < .12:      # very many entries in one directory
        n = rng.choice([130, 260, 300, 520, 1050])
        return ["mkdirp w/v", f"mk m w/v {n}", f"list w/v {rng.randrange(2)} {rng.randrange(2)} 1", f"listr w {rng.randrange(2)} {rng.randrange(2)} 0", f"remove w/v/m{rng.randrange(n)}", "rmdir w/v", "rmr w", "exists w"]
    if kind == 3:      # large (sparse) files
        h = []
        for j, n in enumerate(rng.sample([2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7, 2**33 + 1, 5 * 10**9, 2**40 + 3], 4)):
            h += [f"mk f s{j} {n}", f"size s{j}", f"isfile s{j}"]
        return h + ["mk l ln s1", "size ln", "rename s0 t", "size t", "list . 0 0 0", "remove t", "size t"]
    if kind == 0:      # deep, with long names
        w = rng.choice([1, 8, 100, 250])
        d = min(60, 3300 // (w + 1)) if rng.random() < .7 else 12
        p = [rng.choice("xyz") * w for _ in range(d)]
        i = rng.randrange(d)
        h = [f"mkdirp {P(p)}", f"isdir {P(p)}", f"mk f {P(p + ['f'])} 7", f"size {P(p + ['f'])}", f"mk l {P(p[:i] + ['ln'])} {P([p[i]])}"]
        h += [f"listr {P(p[:rng.randrange(1, d)])} {rng.randrange(2)} {rng.randrange(2)} 0", f"listr {P(p[:1])} 0 0 0"]
        h += [f"rename {P(p[:i + 1])} {P(p[:i] + ['moved'])}", f"exists {P(p)}", f"rmr {P(p[:1])}", f"exists {P(p[:1])}"]
        return h
    if kind == 1:      # wide
        n = rng.choice([5, 20, 70])
        h = ["mkdir w"] + [f"mk f w/{d} 3" for d in rng.sample([".h", "..x", "...", ".a.b", "..."], 3)] + [f"mk f w/{rng.choice(['f', 'g.', 'h.'])}{j} {j}" for j in range(n)] + ["list w 0 1 1", "list w 1 0 2", "listr w 0 1 0"]
        return h + [f"remove w/f{rng.randrange(n)}", "list w 0 0 0", "rmdir w", "rmr w", "exists w"]
    # a comb: every directory on the way holds a file before and after
    d = rng.choice([5, 15, 30])
    p, h = [], []
    for j in range(d):
        p = p + [f"d{j}"]
        h.append(f"mkdir {P(p)}")
        h.append(f"mk f {P(p + ['a'])} {j}")
        if rng.random() < .5:
            h.append(f"mk l {P(p + ['z'])} ..")
    h += ["listr d0 0 1 0", "listr d0 1 0 0", "rmr d0", "exists d0"]
    return h
