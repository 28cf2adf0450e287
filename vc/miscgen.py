"""Histories for spans, index maps, memory and integer helpers."""
from . import seqgen


def span_shape(rng):
    esz, ty = seqgen.pick_shape(rng, "v")
    if ty == "r":
        esz = 16
    esz = min(esz, 4096)
    return esz, ty, seqgen.values(rng, "v", esz, ty)


def span_from_behaviours(rng, behs, n=3, per=10):
    out, cur, k = [], [], 0
    esz, ty, vals = span_shape(rng)
    ok = [b for b in behs if not b.refused]
    ref = [b for b in behs if b.refused]

    def conc(b):
        pad_l, pad_r = rng.randrange(2), rng.randrange(2)
        esz, ty, vals = span_shape(rng)
        a, bb = rng.sample(vals, 2)
        m = {"a": a, "b": bb}
        h = [f"base {n} {esz} {ty or '-'} {a}"]
        for c in b:
            T = "T" if rng.random() < .6 else ""
            if c[0] == "make":
                h.append(f"make {c[1]} {c[2]} {c[3]} {rng.randrange(2) if c[2] < c[3] else 0}")
            elif c[0] == "get":
                h.append(f"get{T} {c[1]} {c[2]}")
            elif c[0] == "set":
                h.append(f"set{T} {c[1]} {c[2]} {m[c[3]]}")
            else:
                h.append(f"poke {c[1]} {m[c[2]]}")
        return h
    for b in ok:
        cur += conc(b)
        k += 1
        if k % per == 0:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out + [conc(b) for b in ref]


def span_random(rng, nops):
    n = rng.choice([1, 2, 5, 12, 40])
    esz, ty, vals = span_shape(rng)
    h = [f"base {n} {esz} {ty or '-'} " + " ".join(rng.choice(vals) for _ in range(5))]
    sp = {}
    for _ in range(nops):
        r = rng.random()
        T = "T" if rng.random() < .6 else ""
        if r < .15 or not sp:
            f = rng.choice([0, 0, rng.randrange(n), n - 1])
            t = rng.choice([f + 1, n, rng.randrange(f + 1, n + 1)])
            s = rng.randrange(3)
            sp[s] = t - f
            h.append(f"make {s} {f} {t} {rng.randrange(2)}")
            continue
        s = rng.choice(list(sp))
        i = rng.choice([0, sp[s] - 1, rng.randrange(sp[s])])
        if r < .5:
            h.append(f"get{T} {s} {i}")
        elif r < .9:
            h.append(f"set{T} {s} {i} {rng.choice(vals)}")
        else:
            h.append(f"poke {rng.randrange(n)} {rng.choice(vals)}")
    return h


def span_far(rng, k):
    out = []
    for _ in range(k):
        es = rng.choice([1, 1, 2, 3, 4, 8, 16, 24, 100])
        f = rng.choice([0, 1, 5, 2**16 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 3])
        n = rng.choice([1, 2, 2**16, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 12345])
        out.append(f"far {f} {f + n} {es} {rng.choice([0, n // 2, n - 1, n - 1])}")
    return out


def span_refuse(rng):
    h = span_random(rng, rng.randrange(1, 6))
    n = int(h[0].split()[1])
    sp = {}
    for x in h[1:]:
        t = x.split()
        if t[0] == "make":
            sp[t[1]] = int(t[3]) - int(t[2])
    s = rng.choice(list(sp))
    i = rng.choice([sp[s], sp[s], sp[s] + 1, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1])
    T = "T" if rng.random() < .6 else ""
    v = h[0].split()[4]
    r = rng.random()
    if r < .4:
        return h + [f"get{T} {s} {i}"]
    if r < .8:
        return h + [f"set{T} {s} {i} {v}"]
    return h + [f"badcall {rng.randrange(25)}"]


def index_ops(rng, k):
    """in-range coordinates, extents up to results close to 2^64"""
    out = []

    def ext():
        b = rng.choice([1, 2, 3, 8, 16, 20, 21])
        return rng.choice([1, 2, 3, 2 ** b, 2 ** b - 1, rng.randrange(1, 2 ** b + 1)])
    for _ in range(k):
        nr, nc, nd = ext(), ext(), ext()
        big = rng.random() < .3
        if big:  # 2d with wide extents
            nr, nc = rng.randrange(1, 2 ** 32), rng.randrange(1, 2 ** 31)
        r = rng.choice([0, nr - 1, rng.randrange(nr)])
        c = rng.choice([0, nc - 1, rng.randrange(nc)])
        d = rng.choice([0, nd - 1, rng.randrange(nd)])
        out.append(f"i2 {r} {c} {nc}")
        out.append(f"u2 {rng.choice([r * nc + c, r * nc, nr * nc - 1])} {nc}")
        if not big:
            out.append(f"i3 {r} {c} {d} {nr} {nc}")
            out.append(f"u3 {d * nr * nc + r * nc + c} {nr} {nc}")
    return out


# ------------------------------------------------------------------ C19
BITS = {"i8": (-2**7, 2**7-1), "u8": (0, 2**8-1), "i16": (-2**15, 2**15-1), "u16": (0, 2**16-1), "i32": (-2**31, 2**31-1), "u32": (0, 2**32-1),
        "i64": (-2**63, 2**63-1), "u64": (0, 2**64-1), "f": (-2**24, 2**24), "d": (-2**53, 2**53), "r": (-2**62, 2**62)}


def num(rng, lo, hi):
    c = [lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1, rng.randint(lo, hi), rng.randint(max(lo, -100), min(hi, 100))]
    if lo < 0:
        c += [-1, -1, lo // 2]
    b = rng.randrange(1, 64)
    for d in (-1, 0, 1):
        if lo <= 2 ** b + d <= hi:
            c.append(2 ** b + d)
    return rng.choice(c)


def cmp_ops(rng, k):
    out = []
    for _ in range(k):
        t = rng.choice(list(BITS))
        lo, hi = BITS[t]
        x, y, z = num(rng, lo, hi), num(rng, lo, hi), num(rng, lo, hi)
        if rng.random() < .2:
            y = x
        out.append(f"{rng.choice(['min', 'max'])} {t} {x} {y}")
        a, b = min(y, z), max(y, z)
        out.append(f"clamp {t} {x} {a} {b}")
    return out


def math_ops(rng, k):
    import math
    out = []
    for _ in range(k):
        s = str(rng.randrange(10 ** rng.randrange(0, 10)))
        p = s + rng.choice(["", str(rng.randrange(10))]) + s[::-1]
        x = rng.choice([int(p), int(s), rng.randrange(2 ** 64), 0, 2 ** 64 - 1, 10 ** rng.randrange(20), int("9" * rng.randrange(1, 20))])
        if x < 2 ** 64:
            out.append(f"pal {x}")
            if x > 9:
                out.append(f"pal {x - 1}")
        lim = rng.choice([20, 1000, 2 ** 31, 2 ** 40, 2 ** 62])
        g = rng.randrange(1, rng.choice([3, 100, 2 ** 20]))
        a, b = rng.randrange(-lim, lim), rng.randrange(-lim, lim)
        if abs(a * g) < 2 ** 63 and abs(b * g) < 2 ** 63:
            a, b = a * g, b * g
        r = rng.random()
        if r < .1:
            a = 0
        elif r < .2:
            b = 0
        elif r < .25:
            a = b
        elif r < .3:
            a = -b
        elif r < .33:
            a = -2 ** 63
            b = rng.choice([6, 7, -12, 1, -1, 2 ** 62])
        if math.gcd(a, b) < 2 ** 63:
            out.append(f"gcd {a} {b}")
        l = 0 if a == 0 or b == 0 else abs(a * b) // math.gcd(a, b)
        if l < 2 ** 63 and abs(a) < 2 ** 63 and abs(b) < 2 ** 63:
            out.append(f"lcm {a} {b}")
    return out


def mem_ops(rng, k):
    n = rng.choice([1, 4, 16, 33, 70, 300])
    big = rng.random() < .12
    if big:
        n, k = rng.choice([600, 1030, 2056, 4200]), 6
    al = rng.choice([[0, 1], list(range(256)), [0, 255, 128, 127]])
    out = ["mem x" + "".join("%02x" % rng.choice(al) for _ in range(n))]
    for _ in range(k):
        c = rng.choice([0, 1, n // 2, n, rng.randrange(n + 1)])
        if big:
            c = rng.choice([x for x in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048) if x <= n // 2])
        d, q = rng.randrange(n - c + 1), rng.randrange(n - c + 1)
        if rng.random() < .3:
            q = max(0, min(n - c, d + rng.choice([-1, 1, 2])))
        op = rng.choice(["memmove", "memmove", "memcopy", "memset", "memcmp", "gswap"])
        if op == "memset":
            out.append(f"memset {d} {rng.choice([0, 1, 255, 256, -1, 65, 1000, -129])} {c}")
        elif op in ("memcopy", "gswap"):
            c = min(c, n // 2)
            d, q = rng.randrange(n // 2 - c + 1), n - n // 2 + rng.randrange(n // 2 - c + 1)
            if rng.random() < .5:
                d, q = q, d
            if op == "gswap" and c == 0:
                continue
            out.append(f"{op} {d} {q} {c}")
        else:
            out.append(f"{op} {d} {q} {c}")
        if rng.random() < .1:
            out.append(f"pswap {rng.randrange(2**63)} {rng.randrange(2**63)}")
        if rng.random() < .1:
            out.append(f"vmem {rng.choice([1, 7, 64, 5000])} {rng.choice([1, 8, 64, 3000, 100000])}")
    return out


def mem_large(rng, k=6):
    """the memory helpers on megabytes"""
    n, runs = 0, []
    for j in range(rng.choice([2, 4, 7])):
        b = (runs[-1][0] + rng.randint(1, 255)) % 256 if runs else rng.randrange(256)
        runs.append((b, rng.choice([1, 255, 4096, 65535, 65537, 120000, 1 << 20, 1500000])))
    n = sum(c for _, c in runs)
    out = ["large " + " ".join(f"{b}:{c}" for b, c in runs)]
    at = [0]
    for _, c in runs:
        at.append(at[-1] + c)
    for _ in range(k):
        op = rng.choice(["memmove", "memmove", "memcopy", "memset", "memcmp", "memcmp", "gswap"])
        c = min(n, rng.choice([1, 4096, 65535, 65536, 65537, 100001, n // 2, n, n // 3]))
        spot = lambda hi: max(0, min(hi, rng.choice([0, hi, rng.choice(at) + rng.randint(-2, 2), rng.randrange(hi + 1)])))
        d, q = spot(n - c), spot(n - c)
        if op == "memset":
            out.append(f"lmemset {d} {rng.randrange(256)} {c}")
            continue
        if op in ("memcopy", "gswap"):
            c = max(1, min(c, n // 2))
            d, q = spot(n // 2 - c), n - n // 2 + spot(n // 2 - c)
            if rng.random() < .5:
                d, q = q, d
        if op == "memcmp" and rng.random() < .7:      # equal parts, and parts that differ in one late place
            c = min(c, n // 2)
            out.append(f"lmemmove {d if d + c <= n else 0} {q} {c}")
            out.append(f"lmemcmp {d} {q} {c}")
            if c:
                out.append(f"lmemset {d + c - 1} {rng.randrange(256)} 1")
        out.append(f"l{op} {d} {q} {c}")
    return out


def mem_from_behaviours(behs):
    out = []
    for b in behs:
        h = ["mem x" + "".join("%02x" % v for v in b[0][1])]
        out.append(h + [" ".join(str(x) for x in c) for c in b[1:]])
    # several per script
    return [sum(out[i:i + 12], []) for i in range(0, len(out), 12)]
