"""Histories for number-text conversion."""
INTS = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
        "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
FLTS = {"f": 24, "d": 53, "r": 64}
ALL = list(INTS) + list(FLTS)


def hx(t):
    return "x" + "".join("%02x" % (c if isinstance(c, int) else ord(c)) for c in t)


def from_behaviours(behs, per=20):
    out, cur = [], []
    for b in behs:
        t = hx(b[0][1])
        cur += [f"from {ty} {t}" for ty in ALL] + [f"num - {t} 0", f"num - {t} 1"]
        if len(cur) > per * 13:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def val(rng, ty):
    lo, hi = INTS[ty]
    r = rng.random()
    if r < .25:
        return rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, max(lo, -1), 9, 10, 99, 100])
    if r < .6:
        k = rng.randrange(1, len(str(hi)) + 1)
        v = rng.choice([10**k, 10**k - 1, 10**k + 1, rng.randrange(10**k)]) * rng.choice([1, -1])
    else:
        v = (1 << rng.randrange(65)) + rng.choice([-1, 0, 1])
        v *= rng.choice([1, -1])
    return v if lo <= v <= hi else rng.randint(lo, hi)


def ints(rng, n):
    """every conversion, buffers with room"""
    out = []
    for _ in range(n):
        ty = rng.choice(list(INTS))
        v = val(rng, ty)
        need = len(str(v)) + 1
        out.append(f"to {ty} {v} {rng.choice([need, need, need + 1, 64])}")
        t = rng.choice([str(v), str(v), "0" * rng.randrange(1, 12) + str(abs(v)), str(abs(v)) + ".", str(abs(v)) + "." + str(rng.randrange(1000))])
        t2 = rng.choice([t, t, " " + t, t + " ", "+" + t, t + "x", t + "\n", t[:1] + "," + t[1:], t + "e1", "0x" + t, t + "\xff"])
        out.append(f"from {rng.choice([ty, ty, rng.choice(list(INTS))])} {hx(t2)}")
    return out


def sweep(ty, lo, hi, step=1):
    out = []
    for v in range(lo, hi + 1, step):
        out += [f"to {ty} {v} {len(str(v)) + 1}", f"from {ty} {hx(str(v))}"]
    return out


def floats(rng, n):
    out = []
    for _ in range(n):
        ty = rng.choice(list(FLTS))
        p = FLTS[ty]
        m = rng.choice([0, 1, rng.randrange(1 << rng.randrange(1, p)), rng.randrange(1 << (p - 1), 1 << p), (1 << p) - 1])
        e = rng.choice([0, -1, -3, -6, -p, -p + 1, rng.randrange(-80, 40), rng.randrange(-p - 30, 60)])
        s = rng.choice(["", "-"]) if m else ""
        out.append(f"to {ty} {s}{m} {e} {rng.choice([-1, -1, 400, 6000])}")
        k = rng.randrange(0, 30 if ty == "f" else 60)
        ip = str(rng.randrange(10**rng.randrange(1, 20))) if rng.random() < .8 else rng.choice(["", "0", "00", "16777217", "9007199254740993", "18446744073709551617"])
        fr = "".join(rng.choice("0123456789") for _ in range(rng.randrange(k + 1)))
        t = ip + rng.choice(["", "." + fr, "." + fr, "." + rng.choice(["5", "25", "125", "1", "3", "0", ""])])
        t = rng.choice([t] * 6 + ["-" + t, t + "f", t + "e2", " " + t, "inf", "nan", "0x1p3"])
        out.append(f"from {ty} {hx(t)}")
    return out


def small(rng):
    """one buffer that is too small (the process ends)"""
    if rng.random() < .7:
        ty = rng.choice(list(INTS))
        v = val(rng, ty)
        need = len(str(v)) + 1
        return [f"to {ty} {v} {need}", f"to {ty} {v} {rng.choice([need - 1, need - 1, need - 2, 0, 1])}"]
    ty = rng.choice(list(FLTS))
    m, e = rng.randrange(1 << 20), rng.randrange(-10, 30)
    return [f"to {ty} {m} {e} -1", f"to {ty} {m} {e} {rng.choice([-2, -2, -3, 0, 1, 6])}"]
