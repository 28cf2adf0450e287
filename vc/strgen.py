"""Call histories for vt_str_t."""


def hx(bs):
    return "x" + "".join("%02x" % b for b in bs)


PRINT = list(range(33, 127))


def alphabet(rng):
    r = rng.random()
    if r < .35:
        return [97, 98]
    if r < .6:
        return [97, 32, 44]
    if r < .75:
        return [32, 9, 10, 33, 46, 97, 65]
    if r < .85:
        return [48, 49, 57, 46, 97]
    if r < .95:
        return list(range(32, 127)) + [9, 10, 13]
    return list(range(1, 256))


def text(rng, al, lo=0, hi=12, z=None):
    n = rng.choice([lo, lo + 1, rng.randint(lo, hi), rng.randint(lo, hi)])
    n = min(n, hi)
    if z and rng.random() < .6:      # a text rich in occurrences of z
        out = []
        while len(out) < n:
            out += z if rng.random() < .55 else [rng.choice(al)]
        return out[:hi] if rng.random() < .5 else out[:hi + len(z)]
    return [rng.choice(al) for _ in range(n)]


EDIT = {"append": 6, "append_n": 4, "appendf": 3, "insert": 5, "insert_n": 5, "insertf": 3, "insert_before": 3, "insert_after": 3, "remove": 4,
        "set": 2, "set_at": 3, "set_c": 3, "set_n": 3, "clear": 1, "reserve": 2, "resize": 3, "shrink": 3, "cut": 1.5, "fill": 2, "validate": 1, "dup": 1, "destroy": .7, "info": 1}
SEARCH = {"find": 2, "can_find": 3, "index_find": 2, "index_of": 2, "starts_with": 2, "ends_with": 2, "is_numeric": 1.5, "equals": 1, "equals_z": 1, "equals_n": 1, "numeric_z": 1,
          "remove_first": 3, "remove_last": 4, "remove_all": 4, "remove_c": 3, "replace": 5, "replace_first": 3, "replace_last": 3, "replace_c": 3, "strip": 2, "strip_punct": 2,
          "strip_c": 3, "upper": 1, "lower": 1}
PARTS = {"split": 5, "join": 3, "join_n": 3, "pop_first": 4, "pop_last": 4, "between": 4}
SLIDE = {"slide_front": 6, "slide_back": 6, "slide_reset": 1, "apply": 1.5}


class G:
    """generates one history, tracking texts approximately through a tiny mirror of lengths"""

    def __init__(self, rng, weights, slots=2, maxlen=40, view=0.0, make=None):
        self.rng, self.slots, self.maxlen, self.view = rng, slots, maxlen, view
        self.W = weights
        self.names, self.ws = list(weights), list(weights.values())
        self.al = alphabet(rng)
        self.z = text(rng, self.al, 1, 3)          # the history's favourite needle
        self.out, self.live = [], {}

    def needle(self, lo=0):
        r = self.rng.random()
        if r < .6:
            return self.z
        if r < .7 and len(self.z) > 1:
            return self.z[:1]
        return text(self.rng, self.al, lo, 3) or self.z

    def make(self, o):
        rng = self.rng
        r = rng.random()
        ua = rng.randrange(2)
        if r < self.view:
            self.out.append(f"static {o} {hx(text(rng, self.al, 0, 12, self.z))}")
            self.live[o] = "v"
            return
        r = rng.random()
        if r < .62:
            self.out.append(f"create {o} {hx(text(rng, self.al, 1, self.maxlen // 2, self.z) or [97])} {ua}")
        elif r < .75:
            self.out.append(f"create_len {o} {rng.choice([1, 2, 5, 20])} {ua}")
        elif r < .9:
            self.out.append(f"create_cap {o} {rng.choice([1, 2, 5, 20, 64])} {ua}")
        else:
            self.out.append(f"own {o} {hx(text(rng, self.al, 0, 12, self.z))} {ua}")
        self.live[o] = "o"

    def history(self, nops):
        rng = self.rng
        self.make(0)
        for _ in range(nops):
            if not self.live:
                self.make(0)
                continue
            if len(self.live) < self.slots and rng.random() < .12:
                self.make(next(i for i in range(4) if i not in self.live))
                continue
            self.step(rng.choice(list(self.live)))
        self.end()
        return self.out

    def end(self):
        for o in list(self.live):
            self.out.append(f"destroy {o}")
        self.out.append("fin")

    def ix(self, last=False):
        """an index relative to the current length that is valid for a non-empty text"""
        rng = self.rng
        return rng.choice(["0", "0", "L-1", "L-1", "L-2", "L-3"] + (["L"] * 2 if last else []))

    def step(self, o):
        rng, al = self.rng, self.al
        op = rng.choices(self.names, self.ws)[0]
        a = self.out.append
        own = self.live[o] == "o"
        RO = {"find", "can_find", "index_find", "index_of", "starts_with", "ends_with", "is_numeric", "equals", "split", "dup", "info", "slide_front", "slide_back", "slide_reset", "destroy",
              "equals_z", "equals_n", "numeric_z", "between", "join", "join_n", "validate"}
        if not own and op not in RO:
            return
        fresh = next((i for i in range(4) if i not in self.live), None)
        # every index-using operation is preceded by something that makes the text non-empty
        need = {"insert", "insertf", "remove", "set", "set_at", "set_c", "set_n", "cut", "dup"}
        if op in need:
            if op == "dup":
                if fresh is None or fresh >= self.slots:
                    return
                if own:
                    a(f"append {o} {hx(text(rng, al, 1, 3) or [97])}")
                else:
                    return
                a(f"dup {o} {fresh}")
                self.live[fresh] = "o"
                return
            a(f"append {o} {hx((text(rng, al, 3, 5) + [97, 97, 97])[:max(3, rng.randrange(3, 6))])}")
        if op in ("append",):
            a(f"append {o} {hx(text(rng, al, 1, 9, self.z) or [98])}")
        elif op == "append_n":
            z = text(rng, al, 1, 9) or [98]
            a(f"append_n {o} {hx(z)} {rng.randint(1, len(z))}")
        elif op == "appendf":
            a(f"appendf {o} {rng.randrange(6)} {hx(text(rng, al, 0, 9))} {rng.choice([0, 7, -1, 42, 99999, 1000000000])}")
        elif op == "insertf":
            a(f"insertf {o} {rng.randrange(6)} {hx(text(rng, al, 0, 9))} {rng.choice([0, 7, 42, 99999])} {self.ix()}")
        elif op == "insert":
            a(f"insert {o} {hx(text(rng, al, 0, 8, self.z))} {self.ix()}")
        elif op == "insert_n":
            z = text(rng, al, 1, 9) or [98]
            a(f"insert_n {o} {hx(z)} {rng.choice(['0', 'L', 'L-1', 'L-2', 'L-5'])} {rng.randint(1, len(z))}")
        elif op in ("insert_before", "insert_after"):
            z = self.needle(1)
            a(f"append {o} {hx(z + (text(rng, al, 0, 2) if rng.random() < .5 else []))}")
            a(f"{op} {o} {hx(z)} {hx(text(rng, al, 1, 5) or [99])}")
        elif op == "remove":
            a(f"remove {o} {self.ix()} {rng.choice([1, 1, 2, 3, 5, 'L', 'L+1', 1000, 2**64 - 1])}")
        elif op == "set":
            a(f"set {o} {hx([rng.choice(al) for _ in range(rng.randint(1, 3))])}")
        elif op == "set_n":
            z = text(rng, al, 3, 6)
            a(f"set_n {o} {hx(z)} {rng.randint(1, 3)}")
        elif op == "set_at":
            k = rng.randint(1, 3)
            a(f"set_at {o} {hx([rng.choice(al) for _ in range(rng.randint(1, k))])} L-{k}")
        elif op == "set_c":
            a(f"set_c {o} {rng.choice(al)} {self.ix()}")
        elif op == "cut":
            a(f"cut {o} {self.ix()}")
        elif op == "fill":
            a(f"fill {o} {hx(text(rng, al, 0, 30))}")
        elif op == "reserve":
            a(f"reserve {o} {rng.choice([1, 2, 3, 10, 100])}")
        elif op == "resize":
            a(f"resize {o} {rng.choice(['1', 'L+1', 'L+2', 'L+9', '2', '5', 'C+1', '12'])}")
        elif op == "destroy":
            a(f"destroy {o}")
            del self.live[o]
        elif op in ("find", "can_find", "index_find"):
            z = self.needle()
            if not own:
                z = z[:1]
                a(f"starts_with {o} {hx(z)}")
                return
            a(f"append {o} {hx(text(rng, al, 3, 6, self.z) + [97, 98, 97])}") if rng.random() < .6 else a(f"append {o} {hx(z or [97])}")
            a(f"{op} {o} {hx(z)}")
        elif op in ("starts_with", "ends_with"):
            a(f"{op} {o} {hx(self.needle())}")
        elif op == "index_of":
            a(f"index_of {o} {rng.choice(al + [0])}")
        elif op == "equals":
            a(f"equals {o} {rng.choice(list(self.live))}")
        elif op == "equals_z":
            z = text(rng, al, 0, 6)
            y = rng.choice([z, z[:-1], z + [97], text(rng, al, 0, 6)])
            a(f"equals_z {hx(z)} {hx(y)}")
        elif op == "equals_n":
            z = text(rng, al, 2, 6)
            while len(z) < 2:
                z.append(97)
            y = rng.choice([z, z[:-1], z + [97], z[:-1] + [120]])
            a(f"equals_n {hx(z)} {hx(y)} {rng.randint(1, min(len(z), len(y)))}")
        elif op == "numeric_z":
            z = text(rng, [48, 57, 46, 47, 58, 97], 1, 6) or [48]
            a(f"numeric_z {hx(z)} {rng.randint(1, len(z))}")
        elif op in ("remove_first", "remove_last", "remove_all", "strip_c", "remove_c"):
            if rng.random() < .35:
                a(f"append {o} {hx(text(rng, al, 1, 8, self.z) or [97])}")
            a(f"{op} {o} {hx(self.needle())}")
        elif op in ("replace", "replace_first", "replace_last"):
            if rng.random() < .35:
                a(f"append {o} {hx(text(rng, al, 1, 8, self.z) or [97])}")
            z = self.needle(1)
            if op == "replace_first":
                a(f"append {o} {hx(z)}" if rng.random() < .5 else f"append {o} {hx((text(rng, al, 3, 6, self.z) + [97] * 3))}")
            a(f"{op} {o} {hx(z)} {hx(text(rng, al, 0, 5, self.z))}")
            if rng.random() < .3:
                a(f"resize {o} {rng.choice([8, 20, 40])}")
        elif op == "replace_c":
            c = text(rng, al, 0, 4)
            a(f"replace_c {o} {hx(c)} {hx([rng.choice(al) for _ in range(rng.randint(0, len(c)))])}")
        elif op == "apply":
            a(f"apply {o} {hx(text(rng, al, 0, 3) if rng.random() < .6 else [])}")
        elif op == "split":
            z = self.needle(1)
            if own:
                if rng.random() < .5:
                    a(f"clear {o}")
                a(f"append {o} {hx((text(rng, al, 1, 14, z) or [97]) + ([97] * len(z) if rng.random() < .4 else z if rng.random() < .6 else z + z))}")
                if rng.random() < .7:
                    a(f"append {o} {hx(z)}")
            elif rng.random() < .9:
                return
            a(f"split {o} {hx(z)} {rng.choice([-1, 0, 1])} {rng.choice([1, 2, 8])} {rng.choice([0, 0, 1, 3])}")
        elif op in ("pop_first", "pop_last"):
            z = self.needle()
            if rng.random() < .6:
                a(f"append {o} {hx(text(rng, al, 0, 4) + z + text(rng, al, 0, 4) + [97])}")
            cand = [i for i in self.live if i != o and self.live[i] == "o"]
            if cand and rng.random() < .5:
                a(f"{op} {o} {rng.choice(cand)} 0 {hx(z)}")
            elif fresh is not None:
                # whether a new string appears is only known at run time: pin it down with a text that has the part
                z = z or [44]
                a(f"clear {o}")
                a(f"append {o} {hx([120] * rng.randint(1, 4) + z + [121] * rng.randint(1, 4))}" if rng.random() < .8 else f"append {o} x7879")
                hit = "7879" != self.out[-1].split()[2][1:]
                if z and all(c in (120, 121) for c in z):
                    self.out.pop()
                    return
                a(f"{op} {o} -1 {fresh} {hx(z)}")
                if hit:
                    self.live[fresh] = "o"
        elif op == "between":
            zl, zr = text(rng, al, 1, 2) or [60], text(rng, al, 0, 2)
            mid = text(rng, al, 0, 6)
            z = text(rng, al, 0, 4) + zl + mid + zr + text(rng, al, 0, 4)
            cand = [i for i in self.live if self.live[i] == "o"]
            if rng.random() < .2:
                z = text(rng, al, 0, 6)
            if cand and rng.random() < .6:
                a(f"between {rng.choice(cand)} 0 {hx(z)} {hx(zl)} {hx(zr)}")
            elif fresh is not None:
                zs, ls, rs = bytes(z), bytes(zl), bytes(zr)
                k = zs.find(ls)
                a(f"between -1 {fresh} {hx(z)} {hx(zl)} {hx(zr)}")
                if k >= 0 and zs.find(rs, k + len(ls)) >= 0:
                    self.live[fresh] = "o"
        elif op in ("join", "join_n"):
            parts = [text(rng, al, 1, 5) or [97] for _ in range(rng.choice([1, 2, 3, 4, 4, 6, 8, 12, 17, 33, 58]) if rng.random() < .3 else rng.randint(1, 4))]
            sep = text(rng, al, 1, 3) or [44]
            cand = [i for i in self.live if self.live[i] == "o"]
            if cand and rng.random() < .6:
                a(f"{op} {rng.choice(cand)} 0 {hx(sep)} " + " ".join(map(hx, parts)))
            elif fresh is not None:
                a(f"{op} -1 {fresh} {hx(sep)} " + " ".join(map(hx, parts)))
                self.live[fresh] = "o"
        else:
            a(f"{op} {o}")


def random_history(rng, fam, nops, slots=2, view=0.0, maxlen=40):
    W = {}
    for f, k in fam.items():
        for n, w in f_map[f].items():
            W[n] = W.get(n, 0) + w * k
    return G(rng, W, slots=slots, view=view, maxlen=maxlen).history(nops)


f_map = {"edit": EDIT, "search": SEARCH, "parts": PARTS, "slide": SLIDE}


def conc(b, rng):
    """one abstract call -> one script line"""
    out = []
    for x in b:
        if isinstance(x, list):
            out.append(hx(x))
        elif x == "":
            out.append("x")
        else:
            out.append(str(x))
    if out[0] in ("create", "own", "create_len", "create_cap"):
        out.append(str(rng.randrange(2)))
    if out[0] == "split":
        out += [str(rng.choice([1, 2, 8])), str(rng.choice([0, 0, 2]))]
    return " ".join(out)


def from_behaviours(rng, behs, per=12):
    """concatenate complete behaviours into histories; at most one refused behaviour closes each"""
    ok = [b for b in behs if not b.refused]
    ref = [b for b in behs if b.refused]
    out = []
    for i in range(0, len(ok), per):
        out.append([x for b in ok[i:i + per] for x in [conc(c, rng) for c in b] + ["destroy 0", "destroy 1"]])
    for i, b in enumerate(ref):
        r = [conc(c, rng) for c in b]
        if i < len(out):
            out[i] += r
        else:
            out.append(r)
    return out


def long_formats(rng):
    """formatted output around the internal buffer size, exact-capacity boundaries"""
    out = []
    for n in [1000, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 3000]:
        z = [97 + (i * 7 + i // 26) % 26 for i in range(n)]
        h = [f"create 0 x787979 {rng.randrange(2)}", f"insertf 0 0 {hx(z)} 0 {rng.randrange(3)}", f"appendf 0 0 {hx(z)} 0",
             "shrink 0", f"insertf 0 3 {hx(z)} 0 1", "destroy 0", "fin"]
        out.append(h)
    return out


def boundary(rng):
    """text exactly fills the capacity / is one short / one over"""
    out = []
    for cap in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65]:
        for d in (-1, 0, 1):
            n = cap + d
            if n < 1:
                continue
            z = [97 + i % 26 for i in range(n)]
            for op in ("append 0 {}", "append_n 0 {} " + str(n), "appendf 0 0 {} 0"):
                out.append([f"create_cap 0 {cap} {rng.randrange(2)}", op.format(hx(z)), "append 0 x7a", "insert 0 x7979 0", "destroy 0", "fin"])
            if n >= 2:
                out.append([f"create_cap 0 {cap} 1", "append 0 x61", f"insert 0 {hx(z[1:])} 0", "shrink 0", f"insert_n 0 {hx(z)} L {n}", "insert_before 0 x61 x7a7a", "destroy 0", "fin"])
    return out


def longtext(rng, n, z, k):
    """n characters with about k separated occurrences of z"""
    fill = [c for c in range(97, 123)]
    out = []
    gap = max(1, n // (k + 1) - len(z))
    if rng.random() < .3:
        out += z
    while len(out) < n:
        out += [rng.choice(fill) for _ in range(rng.randint(max(1, gap // 2), gap + gap // 2 + 1))] + z
    out = out[:n]
    if rng.random() < .4 and len(z) <= n:
        out[n - len(z):] = z
    return out


def long_history(rng, fam, n, view=False):
    """the family's calls on texts, needles and replacements around a length n"""
    z = [44] if rng.random() < .5 else [44, 32] if rng.random() < .5 else [43] + [rng.randrange(97, 123) for _ in range(rng.choice([14, 63, 254, 300]))]
    z = z[:max(1, n // 3)]
    L = n + rng.choice([-2, -1, 0, 0, 1, 2])
    k = rng.choice([0, 1, 2, 9, 20])
    if rng.random() < .12:      # as many occurrences as fit, nearly
        k = n // (len(z) + rng.choice([1, 1, 3]))
    t = lambda m=None: longtext(rng, m or L, z, k)
    big = lambda: [rng.randrange(97, 123) for _ in range(rng.choice([1, 2, len(z), 100, 255, 256, 257, 300, 1000]))]
    ua = rng.randrange(2)
    h = [f"static 0 {hx(t())}"] if view else [f"create 0 {hx(t())} {ua}"]
    if not view and rng.random() < .3:
        h += [f"reserve 0 {rng.choice([1, 255, 256, 1024])}"]
    ops = {"edit": ["append", "append_n", "appendf", "insert", "insert_n", "insertf", "insert_before", "insert_after", "remove", "set", "set_at", "set_c", "set_n", "clear", "resize", "shrink", "cut", "validate", "dup", "info", "reserve"],
           "search": ["can_find", "find", "index_find", "index_of", "starts_with", "ends_with", "is_numeric", "equals", "equals_z", "equals_n", "numeric_z", "remove_first", "remove_last", "remove_all", "remove_c", "replace", "replace_first", "replace_last", "replace_c", "strip", "strip_punct", "strip_c", "upper", "lower"],
           "parts": ["split", "join", "join_n", "pop_first", "pop_last", "between"],
           "slide": ["slide_front", "slide_back", "apply", "slide_reset"],
           "view": ["can_find", "find", "index_find", "index_of", "starts_with", "ends_with", "is_numeric", "equals", "split", "slide_front", "slide_back", "info", "validate"]}[fam]
    ix = lambda: rng.choice(["0", "L-1", "L-2", "L-200", str(rng.randrange(max(1, n // 4))), "255", "256"] if n > 300 else ["0", "L-1", "L-2"])
    for _ in range(rng.randrange(4, 9)):
        op = rng.choice(ops)
        if not view:
            # keep the text long and the needle present
            h.append(f"append 0 {hx(longtext(rng, max(len(z) + 2, rng.choice([len(z) + 2, 20, n // 2])), z, 1))}" if rng.random() < .5 else f"append 0 {hx(z + [122, 122, 122])}")
        if op == "append":
            h.append(f"append 0 {hx(t())}")
        elif op == "append_n":
            x = t(); h.append(f"append_n 0 {hx(x)} {rng.choice([1, len(x), len(x) - 1])}")
        elif op in ("appendf", "insertf"):
            h.append(f"{op} 0 {rng.randrange(6)} {hx(big())} 7" + (f" {ix()}" if op[0] == "i" else ""))
        elif op == "insert":
            h.append(f"insert 0 {hx(big() if rng.random() < .7 else t())} {ix()}")
        elif op == "insert_n":
            x = big(); h.append(f"insert_n 0 {hx(x)} {rng.choice([ix(), 'L'])} {rng.randint(1, len(x))}")
        elif op in ("insert_before", "insert_after"):
            h.append(f"{op} 0 {hx(z)} {hx(big())}")
        elif op == "remove":
            h.append(f"remove 0 {ix()} {rng.choice([1, 2, 255, 256, 300, 'L', 1000])}")
        elif op == "set":
            h.append(f"set 0 {hx(t(max(1, L // 2)))}")
        elif op == "set_n":
            h.append(f"set_n 0 {hx(t(max(1, L // 2)))} {max(1, L // 2 - rng.randrange(2))}")
        elif op == "set_at":
            m = rng.choice([1, 2, max(1, L // 3)])
            h.append(f"set_at 0 {hx(t(m))} {rng.choice(['L-%d' % m, '0'])}")
        elif op == "set_c":
            h.append(f"set_c 0 98 {ix()}")
        elif op == "cut":
            h.append(f"cut 0 {rng.choice(['L-1', 'L-2', '255', '256'] if n > 300 else ['L-1'])}")
        elif op == "resize":
            h.append(f"resize 0 {rng.choice(['L+1', 'L+256', 'C+1', '300'])}")
        elif op == "reserve":
            h.append(f"reserve 0 {rng.choice([1, 255, 256, 4096])}")
        elif op == "dup":
            h += ["destroy 1", "dup 0 1"]
        elif op in ("can_find", "find", "index_find", "starts_with", "ends_with", "remove_first", "remove_last", "remove_all", "strip_c", "remove_c"):
            x = z if rng.random() < .8 or view else z[:1]
            if op in ("strip_c", "remove_c") and rng.random() < .5:      # a large set whose deciding members come late
                x = [46] * rng.choice([254, 255, 256, 300]) + [rng.choice([97, 98, 122])]
                h.append(f"append 0 {hx([rng.choice([97, 98, 122, 46])] * 3)}")
            if view and op not in ("starts_with", "ends_with") and len(x) > L:
                continue
            h.append(f"{op} 0 {hx(x)}")
        elif op == "index_of":
            h.append(f"index_of 0 {rng.choice([44, 43, 97, 122, 1])}")
        elif op == "equals":
            h += (["destroy 1", f"create 1 x61 0", "destroy 1", "dup 0 1"] if not view else []) + (["equals 0 1"] if not view else ["equals 0 0"]) + ([f"set_c 1 33 {ix()}", "equals 0 1"] if not view else [])
        elif op == "equals_z":
            x = t(); y = rng.choice([x, x[:-1], x[:-1] + [33], x + [97]])
            h.append(f"equals_z {hx(x)} {hx(y)}")
        elif op == "equals_n":
            x = t(); y = rng.choice([x, x[:-1] + [33], x + [97]])
            h.append(f"equals_n {hx(x)} {hx(y)} {rng.choice([len(x), len(x) - 1])}")
        elif op == "numeric_z":
            x = [48 + i % 10 for i in range(L)]
            if rng.random() < .6:
                x[rng.choice([0, L - 1, L // 2])] = 97
            h.append(f"numeric_z {hx(x)} {rng.choice([L, L - 1])}")
        elif op in ("replace", "replace_first", "replace_last"):
            h.append(f"{op} 0 {hx(z)} {hx(rng.choice([big(), big(), z[:-1] or [59], [59], z + z]))}")
        elif op == "replace_c":
            h.append(f"replace_c 0 {hx([44, 43, 97, 98])} {hx([59, 60])}")
        elif op == "strip":
            h += [f"append 0 {hx([32, 9] * rng.choice([1, 60, 128, 130]))}", f"insert 0 {hx([10] * rng.choice([1, 255, 256]))} 0", "strip 0"]
        elif op == "strip_punct":
            h += [f"append 0 {hx([33, 32] * rng.choice([1, 60, 128, 130]))}", "strip_punct 0"]
        elif op == "apply":
            h.append(f"apply 0 {hx([65, 66, 67] if rng.random() < .5 else [])}")
        elif op == "split":
            h.append(f"split 0 {hx(z)} {rng.choice([-1, 0, 1])} {rng.choice([1, 2, 8])} {rng.choice([0, 0, 1, 3])}")
        elif op in ("join", "join_n"):
            ps = [t(rng.choice([1, 20, 255, 256, n])) for _ in range(rng.randint(1, 4))]
            h += ["destroy 1", "create 1 x7a7a 1"] + [f"{op} 1 0 {hx(z)} " + " ".join(map(hx, ps))]
        elif op in ("pop_first", "pop_last"):
            h += ["destroy 1", "create 1 x7a7a 1", f"{op} 0 1 0 {hx(z)}"]
        elif op == "between":
            zr = [60] + [rng.randrange(97, 123) for _ in range(rng.choice([0, 1, 30]))]
            h += ["destroy 1", "create 1 x7a7a 1", f"between 1 0 {hx(big() + z + t() + zr + big())} {hx(z)} {hx(zr)}"]
        else:
            h.append(f"{op} 0")
    return h + ["destroy 0", "destroy 1", "fin"]


def huge_history(rng, fam):
    """texts beyond 65535 characters; calls whose model is linear"""
    n = 65536 + rng.choice([-1, 0, 1, 300])
    z = [rng.choice([48, 49, 57, 46]) for _ in range(n)]
    h = [f"create 0 {hx(z)} {rng.randrange(2)}"]
    if fam == "edit":
        h += [f"append 0 x7a79", f"insert 0 {hx([97] * 300)} {rng.choice([65535, 65536, 65530, 3])}", f"remove 0 {rng.choice([65535, 65536, 1])} {rng.choice([2, 256])}", "set_c 0 98 65537",
              "set_at 0 x616263 65536", "shrink 0", "appendf 0 3 x6162 5", "insert_n 0 x7778 65536 2", "dup 0 1", "cut 0 65536", "cut 0 65535", "info 0", "set_n 0 x6162 2", "clear 1"]
    else:
        h += ["is_numeric 0", "append 0 x78", "is_numeric 0", "index_of 0 120", "index_of 0 121", "can_find 0 x78", "ends_with 0 x78", "dup 0 1", "equals 0 1", "set_c 1 122 65536", "equals 0 1",
              "upper 0", "lower 0", "index_find 0 x78", "replace_last 0 x78 x7979", "remove_first 0 x7979", "append 0 " + hx([32] * 70), "strip 0", "strip_c 0 x30", "replace_c 0 x39 x61", "is_numeric 0", "remove_c 1 x31"]
    return h + ["destroy 0", "destroy 1", "fin"]


def long_histories(rng, fam, quick, view=False):
    k = 1 if quick else 8
    out = [long_history(rng, fam, n, view) for n in (64, 128, 256, 256, 512, 1024) for _ in range(12 * k)]
    out += [long_history(rng, fam, 4096, view) for _ in range(3 * k)]
    if fam in ("edit", "search"):
        out += [huge_history(rng, fam) for _ in range(k)]
    return out


def refuse(rng):
    """a valid prefix, then exactly one call outside its contract"""
    al = [97, 98, 44]
    view = rng.random() < .25
    n = rng.randint(0, 8)
    z = [rng.choice(al) for _ in range(n)]
    h = []
    if view:
        h.append(f"static 0 {hx(z)}")
    elif n == 0:
        h.append(f"create_cap 0 {rng.choice([1, 4])} {rng.randrange(2)}")
    else:
        h.append(f"create 0 {hx(z)} {rng.randrange(2)}")
        if rng.random() < .5:
            h.append(f"reserve 0 {rng.choice([1, 8])}")
    big = rng.choice(["L", "L", "L+1", "L+2", "1000000", str(2**63), str(2**64 - 1)])
    big1 = rng.choice(["L+1", "L+1", "L+2", "1000000", str(2**63), str(2**64 - 1)])
    long = [97] * (n + rng.choice([1, 1, 2, 9]))
    t = hx([98, 98])
    cands = [f"set 0 {hx(long)}", f"set_n 0 {hx(long)} {len(long)}", "set 0 x", f"set_n 0 {t} 0", f"set_at 0 {t} {big}", f"set_at 0 {hx(long)} 0", f"set_c 0 97 {big}", "append 0 x", f"append_n 0 {t} 0",
             f"insert 0 {t} {big}", f"insert_n 0 {t} {big1} 1", f"insert_n 0 {t} 0 0", f"insertf 0 0 {t} 0 {big}", f"remove 0 {big} 1", "remove 0 0 0", "reserve 0 0", "resize 0 0",
             f"find 0 {hx(long)}", f"can_find 0 {hx(long)}", f"index_find 0 {hx(long)}", f"insert_before 0 {hx(long)} {t}", f"insert_after 0 {hx(long)} {t}", f"replace_first 0 {hx(long)} {t}",
             f"split 0 {hx(long)} {rng.choice([-1, 0])} 1 0", "replace_c 0 x61 x6262", "replace_c 0 x x62", "create 1 x", "create_len 1 0", "create_cap 1 0", "join -1 1 x2c", "join_n -1 1 x2c", "join -1 1 x2c x61 x",
             "equals_n x6162 x6162 0", "equals_n x6162 x616263 3", "equals_n x616263 x6162 3", f"nullarg 0 {rng.randrange(103)}", f"nullarg 0 {rng.randrange(103)}", f"nullarg 0 {rng.randrange(103)}"]
    if n == 0:
        cands += ["dup 0 1"] * 3
    if view:
        cands = ["append 0 x61", f"append_n 0 {t} 1", "appendf 0 1 x 5", f"insert_n 0 {t} L 1", "reserve 0 1", "resize 0 3", "resize 0 100", "shrink 0", f"join 0 0 x2c {t}", f"join_n 0 0 x2c {t} {t}"] * 2 + (
            [f"insert 0 {t} 0", f"insertf 0 0 {t} 0 0", f"replace 0 {hx(z[:1])} {hx(z[:1] * 2)}", f"insert_before 0 {hx(z[:1])} x62", f"insert_after 0 {hx(z[-1:])} x62"] if n else []) + cands[:20]
    h.append(rng.choice(cands))
    return h
