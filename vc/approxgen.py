"""Scripts for the random and floating-point helpers (harness/approx.c, spec/Approx.tla)."""
import struct

LINK = ["-Wl,--wrap=time"]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def hx(x):
    return float(x).hex()


def flt(rng, emin=-40, emax=40, sign=True):
    """A single-precision value with a random exponent and a mantissa that is random, short or near a power of two."""
    m = rng.choice([0, 1, (1 << 23) - 1, 1 << 22, rng.getrandbits(23), rng.getrandbits(23), rng.getrandbits(3) << 20])
    v = f32((1 + m / (1 << 23)) * 2.0 ** rng.randint(emin, emax))
    return -v if sign and rng.random() < 0.4 else v


def seed(rng):
    return rng.choice([0, 1, 2, 1700000000, 4294967294, 4294967295, 4294967296, rng.getrandbits(31), rng.getrandbits(33)])


def from_behaviours(rng, behs):
    out = []
    for b in behs:
        out.append([f"seed {seed(rng)}"] + [" ".join(str(x) for x in c) for c in b])
    return out


def draws(rng, n):
    s = [f"seed {seed(rng)}"]
    for _ in range(n):
        k = rng.randrange(8)
        if k == 0:
            s.append("u64")
        elif k <= 2:
            s.append(f"f32 {rng.choice([0, 1, 2, 3, 100, 16777216, 16777217, 16777219, 2147483647, 4294967295, rng.getrandbits(32), rng.getrandbits(8)])}")
        elif k <= 5:
            a, b = sorted((flt(rng, -20, 20), flt(rng, -20, 20)))
            if rng.random() < 0.2:
                a = 0.0 if b > 0 else a
            if rng.random() < 0.1:
                b = a
            if rng.random() < 0.1:
                b = f32(a + abs(a) * 2 ** -22)
            s.append(f"uni {hx(a)} {hx(b)}")
        else:
            s.append(f"norm {hx(rng.choice([0.0, flt(rng, -10, 10)]))} {hx(rng.choice([0.0, 1.0, flt(rng, -10, 10, False)]))}")
    return s


def many(rng, n):
    a, b = sorted((flt(rng, -8, 8), flt(rng, -8, 8)))
    s = [f"seed {seed(rng)}"]
    s += rng.sample([f"manyf {n} {rng.choice([1, 1, 2, 10, 16777217, 16777219, 4294967295, 1 + rng.getrandbits(31)])}",
                     f"manyu {n} {hx(a)} {hx(b)}" if a < b else f"manyu {n} 0 1",
                     f"manyu {n} {rng.choice(['0 1', '-1000 0.1', '-1 1', '5 6', '-2 -1', '-1e-3 1e3'])}",
                     f"manyx {n}", f"manyn {n // 4}"], 3)
    return s


def pure(rng, n):
    s = []
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            a, b = flt(rng, -20, 20), flt(rng, -20, 20)
            c, d = flt(rng, -20, 20), flt(rng, -20, 20)
            if a == b:
                continue
            t = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random()])
            x = a if t == 0 else b if t == 1 else a + (b - a) * t
            if rng.random() < 0.3:
                a, b, c, d, x = (float(round(v)) for v in (a, b, c, d, x))
                if a == b:
                    continue
            s.append(f"map {hx(x)} {hx(a)} {hx(b)} {hx(c)} {hx(d)}")
        elif k == 1:
            s.append(f"sqrt {hx(rng.choice([0.0, flt(rng, -100, 100, False), flt(rng, -6, 12, False), float(rng.randrange(1, 2000))]))}")
        elif k == 2:
            s.append(f"isqrt {hx(rng.choice([flt(rng, -100, 100, False), flt(rng, -6, 12, False), float(rng.randrange(1, 2000))]))}")
        else:
            x = rng.choice([0.0, flt(rng, -10, 10)])
            t = rng.choice([0.0, -1.0, -1.0, -0.5, -100.0, flt(rng, -24, 4, False), 2.0 ** -23])
            d = rng.choice([0.0, t * 0.5, abs(t), abs(t) * 1.5, abs(t) * 0.9, 2.0 ** -24, 2.0 ** -22, flt(rng, -12, 3)])
            s.append(f"close {hx(x)} {hx(f32(x + d * rng.choice([1, -1])))} {hx(f32(t))}")
    return s
