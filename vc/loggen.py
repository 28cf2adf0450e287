"""Histories for logging and debug output."""
NAMES = ["a", "bb", "dir/a-longer-name"]
ODD = ["no/x", "dir", "full"]


def hx(t):
    return "x" + "".join("%02x" % (c if isinstance(c, int) else ord(c)) for c in t)


def text(rng):
    r = rng.random()
    if r < .6:
        return "".join(rng.choice("abc %dsn\n-<") for _ in range(rng.randrange(12)))
    if r < .95:
        return rng.choice("xyz") * rng.choice([1, 40, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025])
    return "long" * rng.choice([1030, 2050] * 4 + [5000, 17000])


def name(rng, none=.4):
    r = rng.random()
    n = "-" if r < none else rng.choice(NAMES) if r < .85 else rng.choice(ODD)
    # the same file by a long name
    return f"{rng.choice([1, 60, 64, 127, 128, 500, 1000, 1030, 2000])}:{n}" if n in NAMES and rng.random() < .15 else n


def log(rng, f=None, l=None, c=None):
    f = name(rng, .6) if f is None else f
    l = rng.choice([0, 1, 2, 3]) if l is None else l
    c = rng.random() < .2 if c is None else c
    fm, t = rng.randrange(5), hx(text(rng))
    # the macros always log, except assertions
    if l in (0, 1, 2, 3, 4, 5) and (not c or l == 5) and rng.random() < .6:
        return f"mac {f} {l} {int(c)} {fm} {t}"
    return f"log {f} {l} {int(c)} {rng.choice(['-', 'a>b', 'p!=NULL'])} {fm} {t}"


def dbg(rng, q=None, c=None):
    q = False if q is None else q
    c = rng.random() < .3 if c is None else c
    if q:
        k = rng.choice("aceQ" if c else "acertuQ")
    else:
        k = rng.choice("kN" if c else "knNpP")
    return f"dbg {k} {int(c)} {rng.randrange(5)} {hx(text(rng))}"


def config(rng):
    r = rng.random()
    if r < .4:
        return f"route {rng.randrange(6)} {name(rng)}"
    if r < .5:
        return f"routeall {name(rng)}"
    if r < .75:
        return f"dfile {name(rng)}"
    if r < .9:
        return f"doff {rng.randrange(2)}"
    return f"lname {rng.randrange(6)}"


def from_behaviours(rng, behs):
    out = []
    for b in behs:
        h = []
        for c in b:
            if c[0] == "log":
                h.append(log(rng, c[1], c[2], c[3]))
            elif c[0] == "dbg":
                h.append(dbg(rng, c[1], c[2]))
            else:
                h.append(" ".join(str(int(x)) if isinstance(x, bool) else str(x) for x in c))
        out.append(h)
    return out


def history(rng, n, end=False):
    h, nofd = [], False
    if rng.random() < .3:
        h.append(f"put {rng.choice(NAMES)} {hx('before' + rng.choice(['', chr(10)]))}")
    for _ in range(n):
        r = rng.random()
        if r < .3:
            h.append(config(rng))
        elif r < .65:
            h.append(log(rng))
        elif r < .9:
            h.append(dbg(rng, c=None, q=rng.random() < .2 and None))
        elif r < .93:
            h.append(f"drop {rng.choice(NAMES)}")
        elif r < .96 and rng.random() < .5:
            nofd = not nofd
            h.append(f"nofd {int(nofd)}")
        else:
            h.append(rng.choice([log(rng, l=5, c=True), log(rng, l=4, c=True) if True else "", dbg(rng, q=True, c=True)]))
    if end:
        h.append(rng.choice([log(rng, l=rng.choice([4, 5]), c=False), dbg(rng, q=True, c=False), f"route {rng.choice([6, 7, 99, -1])} a", f"lname {rng.choice([6, -1])}", f"log - {rng.choice([6, -1])} 0 - 1 x61"]))
    return h
