"""Histories for the file API."""


def runs(d):
    return "+".join("%02x*%d" % (b, n) for b, n in d) or "-"


FORMS = ["z", "zb", "s", "sb"]


def wr(rng, f, d, app, ln):
    fm = rng.choice(FORMS + ([] if app else ["f"]))
    return f"write {f} {fm} {runs(d)} {int(app)} {int(ln)}"


def from_behaviours(rng, behs):
    out = []
    for b in behs:
        h = []
        for c in b:
            if c[0] == "write":
                h.append(wr(rng, *c[1:5]))
            elif c[0] == "drop":
                h.append(f"drop {c[1]}")
            elif c[0] == "read":
                h.append(f"read {c[1]} {rng.randrange(2)} {rng.randrange(2)}")
            elif c[0] == "rbuf":
                h.append(f"rbuf {c[1]} {c[2]}")
            elif c[0] == "cut":
                h += [f"limit {c[4]}", wr(rng, c[1], c[2], c[3], False), "limit -1"]
        out.append(h)
    return out


SIZES = [0, 1, 2, 3, 15, 16, 17, 255, 256, 511, 512, 1023, 1024, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 300000]
LARGE = [1 << 20, (1 << 20) + 1, 3200000, (1 << 22) - 1, 5000000, 17000000]


def content(rng, zero=False, big=True):
    n = rng.choice(SIZES if big else SIZES[:12])
    if big and rng.random() < .03:
        n = rng.choice(LARGE)
    d = []
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = n if rng.random() < .5 else rng.randrange(n + 1)
        n -= k
        b = rng.choice([97, 98, 10, 13, 26, 37, 110, 115, 255, 128, 92, 0 if zero else 9, rng.randrange(1, 256)])
        if k and (not d or d[-1][0] != b):
            d.append([b, k])
    if rng.random() < .3:
        d = [[b, 1] for b in rng.choice([b"%d%s%n", b"100%", b"%", b"a%%b", b"line\r\nnext\n", b"\n", b"\x1aend"])] + (d if rng.random() < .3 else [])
    m = []
    for b, k in d:
        if m and m[-1][0] == b:
            m[-1][1] += k
        else:
            m.append([b, k])
    return m


def random_history(rng, n, faults=True):
    h = []
    files = ["a", "b", "dir/c"]
    for _ in range(n):
        f = rng.choice(files) if rng.random() < .88 else rng.choice(["dir", "no/x", "a/x", "dir/", "EMPTY"])
        if rng.random() < .08:
            f = rng.choice(["la", "./a", "dir/../a", ".//b", "dir//c"])
        r = rng.random()
        if faults and r >= .66 and rng.random() < .12:
            h.append(f"short {rng.randrange(3)}")
        if r < .5:
            fm = rng.random()
            app, ln = rng.randrange(2), rng.randrange(2)
            if fm < .6:
                op = wr(rng, f, content(rng), app, ln)
            elif fm < .8:
                k = rng.choice(["k", "kb", "kf"])
                op = f"write {f} {k} {runs(content(rng))} {0 if k == 'kf' else app} {ln} {rng.choice([0, 7, 123456, rng.randrange(1 << 31)])}"
            else:
                k = rng.choice(["c", "cb", "cf"])
                op = f"write {f} {k} - {0 if k == 'cf' else app} {ln} {rng.choice([0, 1, 10, 65, 255])}"
            if faults and rng.random() < .12 and f in files:
                h += [f"limit {rng.choice(SIZES + [100, 5000])}", op, "limit -1"]
            elif faults and rng.random() < .08:
                h.append(op.replace(f" {f} ", " FULL ", 1))
            else:
                h.append(op)
        elif r < .6:
            h.append(f"put {rng.choice(files)} {runs(content(rng, True))}")
        elif r < .66:
            h.append(f"drop {rng.choice(files)}")
        elif r < .86:
            h.append(f"read {f} {rng.randrange(2)} {rng.randrange(2)}")
        else:
            h.append(f"rbuf {f} {rng.choice(SIZES[1:])}")
    return h
