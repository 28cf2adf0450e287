"""Histories for command line parsing."""
TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f", "d", "r", "bool", "char", "cstr", "str", "vec", "unk"]
SIZE = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "char": 1}


def hx(t):
    return "x" + "".join("%02x" % (c if isinstance(c, int) else ord(c)) for c in t)


def rnd_text(rng, n):
    return "".join(rng.choice("abcxyz019-=. /\\'\"%") for _ in range(n))


def init(rng, ty):
    if ty == "f":
        return rng.choice(["0", "1.5", "-2.25", "1000000"])
    if ty in ("d", "r"):
        return rng.choice(["0", "0.1", "-2.25", "1e10"])
    if ty == "bool":
        return str(rng.randrange(2))
    if ty in ("cstr", "str"):
        return rng.choice(["null", "x", hx(rnd_text(rng, rng.choice([1, 2, 5, 8, 20])))])
    return hx(rng.randrange(1, 256) for _ in range(SIZE.get(ty, 8)))


def opt(rng, ty, lg, sh, desc=""):
    return f"o {ty} {hx(lg) if lg is not None else 'NUL'} {hx(sh) if sh is not None else 'NUL'} {init(rng, ty)} {hx(desc)}"


def from_behaviours(rng, behs, per=6):
    out, cur, n = [], [], 0
    for b in behs:
        args = b[0][1]
        cur += [f"new {rng.randrange(2)}"] + [opt(rng, rng.choice(TYPES[:15] + ["cstr", "str"] * 4), l, s) for l, s in (("--a", "-a"), ("--b", "-b"), ("c", ""))]
        if args:
            cur.append("a " + " ".join(hx(a) for a in args))
        cur.append("parse")
        n += 1
        if n % per == 0:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def value(rng, ty):
    r = rng.random()
    if ty in SIZE and ty != "char":
        bits = 8 * SIZE[ty]
        hi = (1 << (bits - (ty[0] == "i"))) - 1
        v = rng.choice([0, 1, 9, 10, hi, hi - 1, rng.randrange(hi + 1)])
        t = str(v)
        if r < .1:
            t = "00" + t
        elif r < .2:
            t = rng.choice(["abc", "-5", "+5", "1e3", "", "12x", "true", "9" * 30])
        elif r < .25:
            t = t + ".9"
        return t
    if ty in ("f", "d", "r"):
        return rng.choice(["0", "1", "0.5", "3.14159", "123456789.125", "16777217", "0.1", "1.", ".5", "abc", "-1.5", "", str(rng.randrange(10**9)) + "." + str(rng.randrange(10**6))])
    if ty == "bool":
        return rng.choice(["1", "0", "true", "false", "True", "10", "yes", "", "tru", "truex", "01"])
    if ty == "char":
        return rng.choice(["a", "Z", "ab", "", "=", "?", "\xe9"])
    n = rng.choice([0, 1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 100, 300])
    if rng.random() < .06:
        n = rng.choice([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000, 4096, 5000])
    t = "".join(chr(rng.choice([97, 98, 61, 45, 32, 37, 115, 110, 34, 92, 200, rng.randrange(33, 127)])) for _ in range(n))
    return t


NAMES = [("--verbose", "-v"), ("--num", "-n"), ("--name", "-na"), ("--file", "-f"), ("--fi", "-fi"), ("input", "i"), ("--x-y", ""), ("--help", "-h"), ("o", "-o"), ("--n", "--n"), ("--num2", "n2"), ("-", "--")]


def table(rng, bad=False):
    k = rng.choice([1, 2, 3, 4, 6, 9])
    ns = rng.sample(NAMES, min(k, len(NAMES)))
    if rng.random() < .15 and len(ns) > 1:      # same name twice: the first entry counts
        ns[-1] = (ns[0][0], ns[-1][1])
    if rng.random() < .1 and len(ns) > 1:
        ns[-1] = (ns[-1][0], ns[0][1])
    tys = [rng.choice(TYPES) for _ in ns]
    rows = [opt(rng, t, l, s, rnd_text(rng, rng.randrange(12))) for t, (l, s) in zip(tys, ns)]
    if bad:
        i = rng.randrange(len(rows))
        l, s = ns[i]
        w = rng.randrange(6)
        rows[i] = [opt(rng, tys[i], None, s), opt(rng, tys[i], l, None), f"o i32 {hx(l)} {hx(s)} nv", opt(rng, tys[i], l, "-abc"),
                   f"o bad {hx(l)} {hx(s)} x00", f"o bad2 {hx(l)} {hx(s)} x00"][w]
    return rows, ns, tys


def parse(rng):
    rows, ns, tys = table(rng, rng.random() < .08)
    h = [f"new {rng.randrange(2)}"] + rows
    args = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 10])):
        i = rng.randrange(len(ns))
        nm = rng.choice(ns[i])
        v = value(rng, tys[i])
        r = rng.random()
        if r < .4:
            args.append(nm + "=" + v)
        elif r < .75:
            args += [nm, v]
        elif r < .93:
            args.append(nm)
        else:
            args.append(rng.choice([nm + "x", nm[:-1], "--unknown", "-z=1", v, "", "=", "=" + v, nm.upper(), " " + nm, "-h", "--help", "?", "?what"]))
    if rng.random() < .06:
        args = [rng.choice(["-h", "--help", "?", "?x", "--h", "-help", "h", "help", "", " -h", "-h=1"])]
    if args:
        h.append("a " + " ".join(hx(a) for a in args))
    return h + ["parse"]


def help_(rng):
    rows, ns, tys = table(rng)
    return ["new 0"] + rows + [f"help {rng.choice(['-', hx(rnd_text(rng, rng.randrange(9)))])} {rng.choice(['-', hx(rnd_text(rng, rng.randrange(9)))])}"]


def wide(rng):
    """many options, many arguments, long names and values"""
    k = rng.choice([30, 70, 130, 257, 300]) if rng.random() < .5 else rng.choice([2, 5, 12])
    nm = lambda i: "--" + "opt%03d" % i + "n" * rng.choice([0, 0, 3, rng.choice([25, 57, 120, 247, 250, 500])] if k < 40 else [0])
    ns = [(nm(i), rng.choice(["", "-%c" % (97 + i % 26), "%02d" % (i % 100), "-%c%c" % (97 + i % 26, 97 + i // 26 % 26)])) for i in range(k)]
    tys = [rng.choice(TYPES if i % 3 else ["cstr", "str", "i32"]) for i in range(k)]
    rows = [opt(rng, t, l, s, rnd_text(rng, rng.choice([0, 3, 200 if k < 40 else 5]))) for t, (l, s) in zip(tys, ns)]
    h = [f"new {rng.randrange(2)}"] + rows
    if rng.random() < .15:
        return h + [f"help {hx(rnd_text(rng, 300))} -"]
    args = []
    for _ in range(rng.choice([3, 10, 130, 260, 300])):
        i = rng.choice([0, k - 1, rng.randrange(k), rng.randrange(k)])
        v = value(rng, tys[i])
        if tys[i] in ("cstr", "str") and rng.random() < .2:
            v = rng.choice("abc") + "".join(rng.choice("ab=-c") for _ in range(rng.choice([63, 64, 127, 128, 255, 256, 500, 1023, 1024, 3000] if len(args) < 30 else [64, 128])))
        r = rng.random()
        args += [ns[i][0] + "=" + v] if r < .5 else [ns[i][0], v] if r < .85 else [ns[i][0]]
        if v[:1] == "-" and r >= .5:
            args[-1] = "x" + args[-1]
    if rng.random() < .3:
        args.append("--opt999")
    for i in range(0, len(args), 100):
        h.append("a " + " ".join(hx(a) for a in args[i:i + 100]))
    return h + ["parse"]
