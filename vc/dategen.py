"""Histories for dates and date texts."""
import calendar

ZONES = ["utc", "utc", "est", "aest", "ist"]


def hx(t):
    return "x" + "".join("%02x" % (c if isinstance(c, int) else ord(c)) for c in t)


def year(rng, lo=1, hi=9999):
    r = rng.random()
    if r < .35:
        y = rng.choice([1, 4, 100, 400, 999, 1000, 1582, 1600, 1700, 1800, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2039, 2096, 2100, 2104, 2200, 2400, 9999])
    elif r < .8:
        y = rng.randint(1900, 2120)
    else:
        y = rng.randint(lo, hi)
    return min(max(y, lo), hi)


def mdays(y, m):
    return calendar.monthrange(y, m)[1] if 1 <= y <= 9999 else 28


def time(rng):
    return rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (23, 30, 0), (0, 30, 0), (1, 30, 0), (2, 30, 0), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])


def date(rng, lo=1, hi=9999):
    """a valid reading with right or unrelated week and year day"""
    y = year(rng, lo, hi)
    m = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
    d = rng.choice([1, mdays(y, m), mdays(y, m) - 1, rng.randint(1, mdays(y, m))])
    h, mi, s = time(rng)
    return [y, m, d, h, mi, s, rng.choice([1, 7, rng.randint(1, 7), 0]), rng.choice([1, rng.randint(1, 366), 0])]


def S(v):
    return " ".join(str(x) for x in v)


def out_of(rng, good, lo, hi):
    return rng.choice([good] * 5 + [lo - 1, lo, hi, hi + 1, hi + 2, -1, 0, -32768, 32767, rng.randint(-100, 200)])


def create(rng, lo=1):
    v = date(rng, lo)
    y = rng.choice([v[0]] * 6 + [-1, -32768, -5, 20000, 32767])
    a = [y, out_of(rng, v[1], 1, 12), out_of(rng, v[2], 1, 31), out_of(rng, v[3], 0, 23), out_of(rng, v[4], 0, 59), out_of(rng, v[5], 0, 60),
         rng.choice([-1, -1, -1, 0, 8, 1, 7, rng.randint(1, 7)]), rng.choice([-1, -1, -1, 0, 367, 1, 366, rng.randint(1, 366)])]
    return "create " + S(a)


def ops(rng, n, tz=None):
    tz = tz or rng.choice(ZONES)
    h = [f"tz {tz}"]
    # the C library has no summer time rules for readings before 1970
    lo = 1971 if tz in ("est", "aest") else 1
    for _ in range(n):
        r = rng.random()
        if r < .2:
            h.append(create(rng, lo))
        elif r < .4:
            v = date(rng, lo)
            if rng.random() < .2:
                v[0] = rng.choice([-1, -32768])
            if rng.random() < .1:
                v[1] = rng.choice([0, -5, 13, 14, 25])
            h.append("facts " + S(v))
        elif r < .55:
            v = date(rng, lo)
            if lo == 1 and rng.random() < .1:
                v[0] = rng.choice([-1, -7, 0])
            if rng.random() < .2:
                v[2] += rng.choice([31, -31, 365, 1])
                v[4] += rng.choice([60, -60, 0])
            h.append("to " + S(v))
        elif r < .7:
            x = rng.choice([0, 1, -1, 86399, 86400, -86400, 951782400, 951868799, 4107542400, 2**31 - 1, 2**31, -2**31, 2**32, rng.randrange(-62135510400, 253402200000), rng.randrange(2**31), rng.randrange(2**31), rng.randrange(-2**31, 0)])
            h.append(f"from {x if lo == 1 else abs(x) + 31622400 + 86400}")
        elif r < .85:
            v = date(rng, lo + 14, 9990)
            k = rng.random()
            q = [0] * 8
            if rng.random() < .15:     # from the end of a month, by months and years only
                y = rng.choice([1972, 1996, 2000, 2004, 2024, 2096, 2100, 2023])
                m = rng.choice([1, 2, 2, 2, 3, 5, 8, 10, 12])
                v[:3] = [y, m, mdays(y, m)]
                q[rng.randrange(2)] = rng.choice([1, -1, 2, 3, 4, -4, 11, 12, -3, 5])
            elif k < .5:
                i = rng.randrange(6)
                q[i] = rng.choice([1, -1, 12, -12, 28, 29, 30, 31, 59, 60, -60, 61, 365, 366, 1440, 86, rng.randint(-3000, 3000)])
                if i == 0:
                    q[0] = rng.choice([1, -1, 4, -4])
            else:
                q = [rng.choice([0, 1, -1, 2]), rng.randint(-30, 30), rng.randint(-800, 800), rng.randint(-100, 100), rng.randint(-2000, 2000), rng.randint(-30000, 30000), 0, 0]
                if rng.random() < .2:
                    q = [0, 0] + [rng.choice([-32768, 32767, 0, 1000]) for _ in range(4)] + [0, 0]
            h.append("op " + S(v) + " " + S(q))
        elif r < .98:
            v = date(rng, lo)
            w = date(rng, lo) if rng.random() < .4 else [v[0], v[1], rng.randint(1, mdays(max(v[0], 1), v[1])), *time(rng), 1, 1]
            if rng.random() < .15:
                w = list(v)
            h.append("dif " + S(v) + " " + S(w))
        else:
            h.append("now")
    return h


# -------------------------------------------------------------------- texts
FORMS = {"p": "%04d-%02d-%02d %02d:%02d:%02d", "i": "%04d%02d%02dT%02d%02d%02d", "e": "%04d-%02d-%02dT%02d:%02d:%02d"}


def texts_from(behs, per=40):
    out, cur = [], []
    for b in behs:
        kind, form, t = b[0]
        if 0 in t:
            continue
        cur.append(f"valid {form} {hx(t)}")
        for f in "pie":
            if f != form:
                cur.append(f"valid {f} {hx(t)}")
        if kind == "valid":
            cur.append(f"parse {form} {hx(t)}")
        if len(cur) > per * 3:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def text_refuse(rng, behs):
    return [[f"parse {b[0][1]} {hx(b[0][2])}"] for b in behs if b[0][0] == "invalid"]


def texts(rng, n, tz=None):
    h = [f"tz {tz or rng.choice(ZONES)}"]
    for _ in range(n):
        r = rng.random()
        v = date(rng, 1000, 9999)
        v[6] = v[6] or 7
        if r < .45:
            h.append(f"fmt {rng.choice('piey')} {rng.choice([26, 26, 27, 40, 100])} " + S(v))
        elif r < .5:
            h.append(f"nowtext {rng.choice('py')} {rng.choice([26, 27, 64])}")
        elif r < .85:
            f = rng.choice("pie")
            h.append(f"parse {f} {hx(FORMS[f] % tuple(v[:6]))}")
        elif r < .9:
            f = rng.choice("pie")
            h.append(f"parse {f} {hx(FORMS[f] % (rng.randrange(10000), rng.randrange(100), rng.randrange(100), rng.randrange(100), rng.randrange(100), rng.randrange(100)))}")
        else:
            f, g = rng.choice("pie"), rng.choice("pie")
            t = list(FORMS[f] % tuple(v[:6]))
            for _ in range(rng.choice([0, 1, 1, 2])):
                t[rng.randrange(len(t))] = rng.choice("0123456789-: T/.a\xff")
            h.append(f"valid {g} {hx(t)}")
    return h


def fmt_small(rng):
    v = date(rng, 1000, 9999)
    return [f"fmt {rng.choice('piey')} {rng.choice([25, 24, 20, 19, 1, 0])} " + S(v)]
