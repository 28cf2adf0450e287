"""Call histories for vt_vec_t / vt_plist_t."""
TYPES = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f": 4, "d": 8, "r": 10}
FL = {"f": ["00000000", "0000803f", "000020c1", "cdcc4c3e", "ffff7f7f"],
      "d": ["0000000000000000", "000000000000f03f", "00000000000024c0", "9a9999999999c93f", "ffffffffffffef7f"],
      "r": ["00000000000000000000", "0000000000000080ff3f", "00000000000000a002c0", "00d0cccccccccccc cffc".replace(" ", "")[:18] + "bf"]}
FL["r"][3] = "00d0ccccccccccccfcbf"


def values(rng, kind, esz, ty):
    """a small alphabet of element encodings (hex of the bytes, or Pk for wide elements)"""
    if ty in FL:
        return list(FL[ty])
    if kind == "p":
        return ["%016x" % (int.from_bytes((0x10000 + 8 * k + (k << 40)).to_bytes(8, "little"), "big")) for k in range(1, 7)]
    if esz > 16:
        k = rng.randrange(16)  # k + 32 differs from k in the last byte only, k + 48 in the middle one
        r = [k, k + 32, k + 48] + rng.sample([x for x in range(32) if x != k], 2)
        rng.shuffle(r)
        return [f"P{k}" for k in r]
    base = ["00" * esz, "ff" * esz, "7f" + "00" * (esz - 1), "00" * (esz - 1) + "80", "01" + "00" * (esz - 1)]
    base += ["".join("%02x" % rng.randrange(256) for _ in range(esz)) for _ in range(4)]
    if esz > 1:  # values that share a prefix / differ only in the last byte
        base += ["aa" * (esz - 1) + "01", "aa" * (esz - 1) + "02", "aa" * esz, "01" + "aa" * (esz - 1)]
    rng.shuffle(base)
    return base[:6]


ESIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 33, 64, 100, 255, 256, 257, 1000, 4096]


def pick_shape(rng, kind):
    if kind == "p":
        return 8, ""
    if rng.random() < 0.55:
        ty = rng.choice(list(TYPES))
        return (16 if ty == "r" else TYPES[ty]), ty
    return rng.choice(ESIZES), ""


class Sim:
    """tracks lengths only, to steer generation"""
    def __init__(self, n):
        self.len = 0
        self.cap = n


def random_history(rng, kind, nops, slots=1, weights=None, maxlen=60, refuse=0.0, slides=0.0, fin=True):
    out, sims, shape = [], {}, {}
    used = 0

    def create(o):
        esz, ty = pick_shape(rng, kind)
        n = rng.choice([1, 1, 1, 2, 3, 4, 5, 8, 16, rng.randrange(1, 64)])
        al = rng.random() < 0.5
        sims[o] = Sim(n)
        shape[o] = (esz, ty, values(rng, kind, esz, ty), al)
        out.append(f"create {o} {kind} {n} {esz} {int(al)} {ty}")
    create(0)
    W = {"push_back": 8, "push_front": 4, "insert": 5, "pop": 2, "pop_get": 3, "set": 3, "poke": 1, "get": 3, "remove_s": 4,
         "remove_f": 3, "remove_elem": 2, "find": 3, "clear": .4, "reserve": 1.5, "resize": 1.5, "shrink": 2, "apply": 1, "aget": 1, "aset": .7, "info": .7, "dup": .8, "destroy": .2,
         "slide_front": 20 * slides, "slide_back": 20 * slides, "aslide_front": 8 * slides, "aslide_back": 8 * slides, "slide_reset": 2 * slides}
    if weights:
        W.update(weights)
    names, ws = list(W), list(W.values())
    for _ in range(nops):
        live = list(sims)
        if not live:
            create(0)
            continue
        if len(live) < slots and rng.random() < .15:
            create(next(i for i in range(4) if i not in sims))
            continue
        o = rng.choice(live)
        s = sims[o]
        esz, ty, vals, _ = shape[o]
        T = "T" if ty and rng.random() < .7 else ""
        op = rng.choices(names, ws)[0]
        v = rng.choice(vals)
        bad = rng.random() < refuse
        if op in ("push_back", "push_front"):
            if s.len >= maxlen:
                continue
            out.append(f"{op}{T} {o} {v}")
            s.len += 1
            s.cap = max(s.cap, s.len) if s.len <= s.cap else 3 * s.cap
        elif op in ("insert", "set", "poke", "aset"):
            if s.len == 0 or (op == "insert" and s.len >= maxlen):
                continue
            at = rng.choice([0, s.len - 1, rng.randrange(s.len)])
            out.append(f"{op}{T if op not in ('poke', 'aset') else ''} {o} {v} {at}")
            if op == "insert":
                s.len += 1
                s.cap = s.cap if s.len <= s.cap else 3 * s.cap
        elif op in ("get", "aget", "remove_s", "remove_f"):
            if s.len == 0:
                continue
            at = rng.choice([0, s.len - 1, rng.randrange(s.len)])
            out.append(f"{op}{T if op == 'get' else ''} {o} {at}")
            if op not in ("get", "aget"):
                s.len -= 1
        elif op == "remove_elem":
            if ty in ("r",):
                continue
            out.append(f"remove_elem {o} {v} {rng.randrange(2)}")
            s.len = max(0, s.len - 1)  # lower bound; regained through len-safe indices below
            out.append(f"clear {o}") if rng.random() < .05 else None
            if rng.random() < .05 and out[-1].startswith("clear"):
                s.len = 0
            if out[-1].startswith("clear"):
                s.len = 0
        elif op in ("pop", "pop_get"):
            out.append(f"{op}{T if op == 'pop_get' else ''} {o}")
            s.len = max(0, s.len - 1)
        elif op == "find":
            if ty == "r":
                continue
            out.append(f"find{T} {o} {v}")
        elif op == "clear":
            out.append(f"clear {o}")
            s.len = 0
        elif op == "reserve":
            n = rng.choice([1, 2, 7, 50])
            out.append(f"reserve {o} {n}")
            s.cap += n
        elif op == "resize":
            n = rng.choice([1, max(1, s.len - 1), max(1, s.len), s.len + 1, s.len + 3, max(1, s.cap), rng.randrange(1, 40)])
            out.append(f"resize {o} {n}")
            s.len = s.cap = n
        elif op == "shrink":
            if s.len == 0:
                continue
            out.append(f"shrink {o}")
            s.cap = s.len
        elif op == "dup":
            free = [i for i in range(slots) if i not in sims]
            if not free or s.len == 0:
                continue
            d = free[0]
            al = rng.random() < .5
            out.append(f"dup {o} {d} {int(al)}")
            sims[d] = Sim(s.len)
            sims[d].len = s.len
            shape[d] = shape[o]
        elif op == "destroy":
            out.append(f"destroy {o}")
            del sims[o]
        elif op == "apply":
            out.append(f"apply {o} " + " ".join(rng.choice(vals) for _ in range(rng.randrange(0, 4))))
        else:
            out.append(f"{op} {o}")
    if fin:
        for o in list(sims):
            out.append(f"destroy {o}")
        out.append("fin")
    return [x.strip() for x in out]


def long_history(rng, kind, n, slides=False):
    """lengths around a threshold n (256, 4096, 65536 ...): few calls, each on a long container"""
    esz, ty = pick_shape(rng, kind)
    while n * esz > 3_000_000:
        esz, ty = pick_shape(rng, kind)
    vals = values(rng, kind, esz, ty)
    lone = vals.pop()  # only ever in one place
    al = int(rng.random() < .5)
    T = lambda: "T" if ty and rng.random() < .5 else ""
    many = lambda: " ".join(rng.choice(vals) for _ in range(rng.choice([7, 11, 13])))
    v = lambda: rng.choice(vals)
    out = [f"create 0 {kind} {rng.choice([1, 1, 4, n, n - 1])} {esz} {al} {ty}".strip()]
    L = n + rng.choice([-2, -1, 0, 1, 2])
    k = rng.choice([0, L // 3]) if n < 3000 else 0
    if k:
        out.append(f"bulk{T()} 0 front {k} {many()}")
    out.append(f"bulk{T()} 0 back {L - k} {many()}")
    if slides:
        out.append(f"walk_{rng.choice(['front', 'back'])} 0 {rng.choice([L + 1, L - 1, L, 2 * L + 3])}")
    for _ in range(rng.randrange(6, 12) if n < 10000 else 6):
        at = rng.choice([0, 1, L // 2, L - 1, L - 2, 254, 255, 256, rng.randrange(L), rng.randrange(L)] + [x for x in (65534, 65535, 65536) if x < L])
        at = min(at, L - 1)
        op = rng.choice(["push_back", "push_front", "insert", "insert", "remove_s", "remove_s", "remove_f", "pop_get", "get", "set", "find", "apply", "shrink", "reserve", "resize", "dup",
                         "slide_front", "walk_front", "walk_back", "slide_back"] if n < 10000 else
                        ["push_back", "push_front", "insert", "remove_s", "remove_f", "get", "set", "find", "shrink", "reserve", "walk_front", "walk_back"])
        if op in ("push_back", "push_front"):
            out.append(f"{op}{T()} 0 {v()}"); L += 1
        elif op in ("insert", "set"):
            out.append(f"{op}{T()} 0 {v()} {at}"); L += op == "insert"
        elif op in ("remove_s", "remove_f"):
            out.append(f"{op} 0 {at}"); L -= 1
        elif op == "get":
            out.append(f"get{T()} 0 {at}")
        elif op == "pop_get":
            out.append(f"pop_get{T()} 0"); L -= 1
        elif op == "find":
            if ty != "r":
                x = v()
                out += [f"set{T()} 0 {x} {L - 1}", f"find{T()} 0 {x}", f"set{T()} 0 {lone} {at}", f"find{T()} 0 {lone}"]
                if kind == "p" and rng.random() < .7:
                    out.append(f"remove_elem 0 {lone} {rng.randrange(2)}"); L -= 1
                else:
                    out.append(f"set{T()} 0 {v()} {at}")
        elif op == "apply":
            out.append(f"apply 0 {many() if rng.random() < .5 else ''}".strip())
        elif op == "reserve":
            out.append(f"reserve 0 {rng.choice([1, 255, 1000])}")
        elif op == "resize":
            L = rng.choice([L - 1, L + 1, L // 2 + 1, L + 300]); out.append(f"resize 0 {L}")
        elif op == "dup":
            out += ["destroy 1", f"dup 0 1 {rng.randrange(2)}"]
        elif op.startswith("walk"):
            out.append(f"{op} 0 {rng.choice([L + 1, L - 1, L, 2 * L + 3] if n < 10000 else [L + 1, L])}")
        else:
            out.append(f"{op} 0")
    out += [f"drain 0 {rng.choice([L, L - 1, L + 2, L // 2])}", f"push_back 0 {v()}", "destroy 0", "destroy 1", "fin"]
    return out


def long_histories(rng, kind, quick, slides=False):
    k = 1 if quick else 8
    out = [long_history(rng, kind, n, slides) for n in (128, 256, 256, 512, 1024) for _ in range(5 * k)]
    out += [long_history(rng, kind, n, slides) for n in (4096,) for _ in range(2 * k)]
    out += [long_history(rng, kind, 65536, slides) for _ in range(k)]
    return out


def refuse_history(rng, kind):
    """a valid prefix, then exactly one call outside its contract"""
    h = random_history(rng, kind, rng.randrange(0, 12), slots=1, weights={"remove_elem": 0, "destroy": 0}, fin=False)
    c = h[0].split()
    esz, ty = int(c[4]), (c[6] if len(c) > 6 else "")
    v = rng.choice(values(rng, kind, esz, ty))
    T = "T" if ty and rng.random() < .5 else ""
    big = rng.choice(["L", "L+1", "L+7", "1000000", "18446744073709551615", "9223372036854775808"])
    op = rng.choice(["insert", "set", "get", "remove_s", "remove_f", "reserve0", "resize0", "create0", "poke", "aget", "aset"])
    if op in ("insert", "set"):
        h.append(f"{op}{T} 0 {v} {big}")
    elif op in ("poke", "aset"):
        h.append(f"{op} 0 {v} {big}")
    elif op in ("get", "aget", "remove_s", "remove_f"):
        h.append(f"{op}{T if op == 'get' else ''} 0 {big}")
    elif op == "reserve0":
        h.append("reserve 0 0")
    elif op == "resize0":
        h.append("resize 0 0")
    else:
        h.append(f"create 1 {kind} 0 {esz} {rng.randrange(2)} {ty}".strip())
    return h


def from_behaviour(rng, beh, kind, shape=None):
    """concretise an abstract TLC behaviour"""
    esz, ty = shape or pick_shape(rng, kind)
    vals = values(rng, kind, esz, ty)
    m = {"a": vals[0], "b": vals[1], "c": vals[2]}
    out = []
    al = rng.randrange(2)
    for b in beh:
        op, o = b[0], b[1]
        T = "T" if ty and rng.random() < .6 else ""
        if op == "create":
            out.append(f"create {o} {kind} {b[2]} {esz} {al} {ty}".strip())
        elif op in ("push_back", "push_front"):
            out.append(f"{op}{T} {o} {m[b[2]]}")
        elif op in ("insert", "set"):
            out.append(f"{op}{T} {o} {m[b[2]]} {b[3]}")
        elif op == "find":
            if ty == "r":
                continue
            out.append(f"find{T} {o} {m[b[2]]}")
        elif op == "remove_elem":
            if ty == "r":
                return None
            out.append(f"remove_elem {o} {m[b[2]]} {int(b[3])}")
        elif op in ("get",):
            out.append(f"get{T} {o} {b[2]}")
        elif op == "pop_get":
            out.append(f"pop_get{T} {o}")
        elif op == "dup":
            out.append(f"dup {o} {b[2]} {rng.randrange(2)}")
        elif op == "apply":
            out.append(f"apply {o}")
        elif len(b) > 2:
            out.append(f"{op} {o} {b[2]}")
        else:
            out.append(f"{op} {o}")
    return out


def from_behaviours(rng, behs, kind, per=8):
    """concatenate complete behaviours; at most one refused behaviour closes each history"""
    out, cur, n = [], [], 0
    refs = []
    for b in behs:
        h = from_behaviour(rng, b, kind)
        if not h:
            continue
        if b.refused:
            refs.append(h)
            continue
        cur += h + ["destroy 0", "destroy 1"]
        n += 1
        if n == per:
            out.append(cur)
            cur, n = [], 0
    if cur:
        out.append(cur)
    for i, h in enumerate(refs):
        if i < len(out):
            out[i] += h
        else:
            out.append(h)
    return out


def loops(rng):
    """the counting loops of core.h over small ranges"""
    return [[f"loop 0 {k} {f} {t} {st}"] for k in "frs" for f in range(6) for t in range(8) for st in ((1, 2, 3, 10) if k == "s" else (1,))] + \
           [[f"loop 0 {k} {f} {f + rng.randrange(60)} {rng.randrange(1, 9)}"] for k in "frs" for f in (100, 65530, 1000000000)]


def vast(rng, kind, hist):
    """sizes no memory can hold: about the type's limit, and products that wrap round to something small"""
    W = 1 << 64
    out = []
    for how in "crz":
        for _ in range(12):
            h = hist()
            es = 8 if kind == "p" else None
            if es is None:
                es = int(next(x for x in h if x.startswith("create")).split()[4])
            n = rng.choice([W - 1, W - 2, W // 2, W // 2 + 1, W // es, W // es + 1, W // es + rng.randrange(1, 40), W // es * max(1, es // 2) + 3, (1 << 61) + rng.randrange(9), W - rng.randrange(1, 40)])
            if n < W and n * es >= 1 << 60:
                out.append(h + [f"vast 0 {how} {n}"])
    return out


def far(kind):
    """Containers of more than 32 bits of elements or bytes."""
    G = 1 << 32
    if kind == "v":
        return [[f"far 0 v {n} {e} {at}"] for n, e, at in ((G + 5, 1, G + 1), (G + 1, 1, 7), (G // 4 + 9, 4, G // 4 + 3), (G // 8 + 3, 9, G // 8), (70000000, 64, 69999999))]
    return [[f"far 0 p {n} 8 {at}"] for n, at in ((G // 8 + 9, G // 8 + 2), (G // 8 + 9, 3), (G // 4 + 1, G // 4 - 1))]
