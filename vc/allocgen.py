"""Call histories for the tracking allocator."""


def from_behaviours(rng, behs, per=12):
    out, cur = [], []
    ok = [b for b in behs if not b.refused]
    for i, b in enumerate(ok):
        h, base = [], 0
        scale = rng.choice([1, 1, 7, 100, 4096])
        for c in b:
            if c[0] == "alloc":
                h.append(f"alloc {c[1]*scale} {rng.randrange(2)}")
            elif c[0] == "realloc":
                h.append(f"realloc {c[1]} {c[2]*scale}")
            elif c[0] == "free":
                h.append(f"free {c[1]}")
        if rng.random() < .3:
            h.append("print")
        h.append("destroy")
        if cur:
            cur.append("new")
        cur += h
        if len([x for x in cur if x == "destroy"]) >= per or i == len(ok) - 1:
            out.append(cur)
            cur = []
    for b in behs:
        if b.refused:
            out.append([f"alloc {c[1]} 0" if c[0] == "alloc" else f"realloc {c[1]} {c[2]}" if c[0] == "realloc" else f"free {c[1]}" for c in b])
    return out


def size(rng):
    return rng.choice([1, 1, 2, 8, 15, 16, 17, 31, 64, 100, 255, 256, 1000, rng.randrange(1, 5000)])


def random_direct(rng, nops, bias=.5):
    """bias: share of allocations (object list grows when large)"""
    out, ids, nxt = [], [], 0
    for _ in range(nops):
        r = rng.random()
        if r < bias or not ids:
            nxt += 1
            ids.append(nxt)
            out.append(f"alloc {size(rng)} {rng.randrange(2)}")
        elif r < bias + (1 - bias) * .45:
            out.append(f"realloc {rng.choice([ids[0], ids[-1], rng.choice(ids)])} {size(rng)}")
        elif r < .98:
            i = rng.choice([0, len(ids) - 1, rng.randrange(len(ids))])
            out.append(f"free {ids.pop(i)}")
        else:
            out.append("print")
    out.append("destroy")
    return out


def random_containers(rng, nops):
    out, live, nid = [], {}, 0
    for _ in range(nops):
        r = rng.random()
        if not live or (len(live) < 7 and r < .12):
            o = next(i for i in range(1, 8) if i not in live)
            k = rng.choice("vvppsct")
            live[o] = k
            out.append(f"cnew {o} {k} {rng.choice([1, 2, 5, 16, 40])} {rng.choice([1, 4, 8, 24, 100])}")
        elif len(live) < 7 and r < .15:
            o = next(i for i in range(1, 8) if i not in live)
            w = rng.randrange(17)
            live[o] = "v" if w == 8 else "p" if w == 9 or w > 14 else "s"
            out.append(f"clib {o} {w}")
        elif r < .17:
            out.append(f"coff {rng.choice(list(live))}")
        elif r < .2:
            o = rng.choice(list(live))
            d = rng.randrange(1, 8)
            out.append(f"cdup {o} {d}")
            if d not in live:
                live[d] = live[o]  # may be skipped by the harness
        elif r < .28:
            o = rng.choice(list(live))
            out.append(f"cdel {o}")
            del live[o]
        elif r < .31:
            out.append(f"alloc {size(rng)} 0")
        else:
            o = rng.choice(list(live))
            out.append(f"cop {o} {rng.randrange(48)} {rng.choice([0, 1, 3, 10, 16, 17, rng.randrange(1000)])}")
    if rng.random() < .7:
        for o in live:
            out.append(f"cdel {o}")
    out.append("destroy")
    return out


def waves(rng, top):
    """The ledger grows to many blocks, empties almost, and grows again."""
    out = []
    for _ in range(rng.randint(2, 3)):
        n = rng.choice([17, 33, 65, 130, top])
        out.append(f"bulk a {n}")
        left = n
        while left > 0 and rng.random() < .85:
            k = rng.choice([1, 2, left // 2 + 1, left * 7 // 8, left - 1, left])
            out.append(f"bulk f {k} {rng.choice('bfr')}")
            left -= min(k, left)
        if rng.random() < .5:
            out.append(f"bulk a {rng.choice([1, 2, 5, 20])}")
    return out + ["destroy"]


def huge():
    G = 1 << 30
    return [["alloc 10 0", f"huge {a} {b}"] for a, b in ((5 * G, 100), (3 * G, 64), (300, 9 * G // 2), (1 << 32, 1 << 31), ((1 << 32) + 8, 16))]
