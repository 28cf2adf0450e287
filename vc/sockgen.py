"""Histories for sockets. A small shadow of the specification's state keeps the
generated calls from waiting for something that never comes."""


def hx(d):
    return "x" + "".join("%02x" % b for b in d)


def recv(rng, s, n, ready=True):
    """a receive that has something to report (or not: timed, short wait)"""
    if not ready:
        return f"{rng.choice(['trecv', 'tfrom'])} {s} {n} {rng.choice([0, 1, 3])}"
    k = rng.choice(["recv", "rfrom", "trecv", "tfrom"])
    return f"{k} {s} {n}" + (" 2000" if k[0] == "t" else "")


class Sim:
    """what is open and waiting; mirrors Sock.tla"""

    def __init__(self):
        self.k, self.port, self.peer, self.inb, self.pend, self.dq, self.unsure = {}, {}, {}, {}, {}, {}, set()
        self.half = {}          # link -> bytes sent before it was accepted
        self.links = 0
        self.link = {}          # slot -> (link, side)
        self.gone = set()

    def free(self):
        for s in range(1, 9):
            if s not in self.k:
                return s

    def listener(self, p):
        return next((s for s, k in self.k.items() if k == "ls" and self.port[s] == p), None)

    def userver(self, p):
        return next((s for s, k in self.k.items() if k == "us" and self.port[s] == p), None)

    def broken(self, s):
        l, i = self.link[s]
        return (l, 1 - i) in self.gone or (l, i) in self.unsure

    def data(self, s):
        return self.inb[self.link[s]]

    def ready(self, s):
        k = self.k[s]
        if k == "ls":
            return bool(self.pend[s])
        if k == "st":
            return bool(self.data(s)) or self.broken(s)
        return bool(self.dq[s])

    def close(self, s):
        k = self.k.pop(s)
        if k == "st":
            l, i = self.link[s]
            self.gone.add((l, i))
            if self.inb[(l, i)]:
                self.unsure.add((l, 1 - i))
        elif k == "ls":
            for l in self.pend[s]:
                self.gone.add((l, 1))
                self.unsure.add((l, 0))
            self.pend[s] = []

    def srv(self, s, t, p):
        if t == "T":
            if self.listener(p):
                return
            self.k[s], self.port[s], self.pend[s] = "ls", p, []
        else:
            self.k[s], self.port[s], self.dq[s] = "us", p, []

    def cli(self, s, t, p):
        if t == "T":
            h = self.listener(p)
            if not h:
                return
            self.links += 1
            self.k[s], self.link[s] = "st", (self.links, 0)
            self.inb[(self.links, 0)], self.inb[(self.links, 1)] = [], []
            self.pend[h].append(self.links)
        else:
            self.k[s], self.port[s], self.dq[s], self.peer[s] = "uc", ("c", s), [], p

    def acc(self, s, h):
        l = self.pend[h].pop(0)
        self.k[s], self.link[s] = "st", (l, 1)

    def send(self, s, d):
        l, i = self.link[s]
        if self.broken(s):
            self.unsure.add((l, i))
        else:
            self.inb[(l, 1 - i)] += d

    def sendu(self, s, target, d):
        """target: port number or slot"""
        if isinstance(target, int) and target < 0:
            t = self.userver(-target)
        else:
            t = target
        if t is None or (self.k[t] == "uc" and not (self.k[s] == "us" and self.peer[t] == self.port[s])):
            self.unsure.add(s)
        else:
            self.dq[t].append(d)
            if s in self.unsure:
                self.unsure.add(t)      # an old refusal may have stopped this one


def history(rng, n):
    m, h = Sim(), []
    style = rng.choice("TTUB")

    def emit(x):
        h.append(x)
    for _ in range(n):
        s = m.free()
        opts = []
        if s:
            for p in (1, 2):
                if style in "TB":
                    opts += [("srv", "T", p)] * (1 if m.listener(p) and rng.random() < .2 or not m.listener(p) else 0)
                    opts += [("cli", "T", p)] * (3 if m.listener(p) else (1 if rng.random() < .3 else 0))
                if style in "UB":
                    opts += [("srv", "U", p)] * (0 if m.userver(p) else 2)
                    opts += [("cli", "U", p)]
            opts += [("acc", x) for x in m.k if m.k[x] == "ls" and m.pend[x]] * 3
        for x, k in m.k.items():
            if k == "st":
                opts += [("send", x)] * 3
                opts += [("recv", x)] * (5 if m.data(x) else 1)
            if k in ("us", "uc"):
                opts += [("sendu", x)] * 2
                opts += [("recvu", x)] * (5 if m.dq[x] else 1)
            if rng.random() < .25:
                opts.append(("close", x))
        if m.k and rng.random() < .6:
            opts.append(("poll",))
        st = [x for x in m.k if m.k[x] == "st" and not m.broken(x) and not m.data(x)]
        pairs = [(a, b) for a in st for b in st if m.link[a][0] == m.link[b][0] and a != b]
        if pairs and rng.random() < .15:
            opts.append(("pump", rng.choice(pairs)))
        if rng.random() < .05:
            opts.append(("badfd",))
        if rng.random() < .05:
            opts.append(("mkaddr",))
        if not opts:
            continue
        o = rng.choice(opts)
        flt = rng.random() < .07
        d = [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 3, 7, 16, 100, rng.choice([0, 1000])]))]
        if o[0] in ("srv", "cli"):
            if o[0] == "srv" and o[1] == "T" and m.listener(o[2]):
                flt = False
            if flt:
                c = rng.choice((["socket", "setsockopt", "bind"] + (["listen"] if o[1] == "T" else [])) if o[0] == "srv" else ["socket", "connect"])
                h += [f"inj {c}", f"{o[0]} {s} {o[1]} {o[2]}"]
                continue
            emit(f"{o[0]} {s} {o[1]} {o[2]}")
            getattr(m, o[0])(s, o[1], o[2])
        elif o[0] == "acc":
            if flt:
                h += ["inj accept", f"acc {s} {o[1]}"]
                continue
            emit(f"acc {s} {o[1]}")
            m.acc(s, o[1])
        elif o[0] == "send":
            d = d or [1]
            if flt:
                h += ["inj send", f"send {o[1]} {hx(d)}"]
                continue
            if len(d) > 1 and not m.broken(o[1]) and rng.random() < .15:
                k = rng.randrange(1, len(d))
                h += [f"inj short {k}", f"send {o[1]} {hx(d)}"]
                m.send(o[1], d[:k])
                continue
            emit(f"send {o[1]} {hx(d)}")
            m.send(o[1], d)
        elif o[0] == "sendu":
            x = o[1]
            to_self = m.k[x] == "uc" and rng.random() < .6
            if flt:
                h += ["inj send", (f"send {x} {hx(d)}" if to_self else f"sendto {x} -1 {hx(d)}")]
                continue
            if to_self:
                emit(f"send {x} {hx(d)}")
                m.sendu(x, -m.peer[x], d)
            else:
                if m.k[x] == "uc":
                    t = rng.choice([-1, -2])
                else:
                    t = rng.choice([-1, -2] + [y for y in m.k if m.k[y] == "uc"] * 2)
                emit(f"sendto {x} {t} {hx(d)}")
                m.sendu(x, t, d)
        elif o[0] == "recv":
            x = o[1]
            b = m.data(x)
            k = rng.choice([1, 2, 3, 5, 16, 64, 2000, max(1, len(b)), len(b) + 1])
            if flt and m.ready(x):      # never one that would wait for ever if the fault does not happen
                c = rng.choice(["recv", "recv", "poll"])
                h += ["inj " + c, f"{rng.choice(['trecv', 'tfrom'])} {x} {k} 2000" if c == "poll" or rng.random() < .5 else f"{rng.choice(['recv', 'rfrom'])} {x} {k}"]
                continue
            if m.link[x] in m.unsure:
                emit(recv(rng, x, k, False))
                m.inb[m.link[x]] = []       # whatever is left of it
                continue
            emit(recv(rng, x, k, m.ready(x)))
            m.inb[m.link[x]] = b[k:]
        elif o[0] == "recvu":
            x = o[1]
            k = rng.choice([1, 2, 3, 16, 2000] + [len(m.dq[x][0]) or 1] if m.dq[x] else [1, 50])
            if x in m.unsure:
                if m.dq[x]:
                    emit(f"tfrom {x} {k} 100")
                    # an error may have been reported instead: ask again only with a time limit
                    m.dq[x].pop(0)
                else:
                    emit(recv(rng, x, k, False))
                continue
            if flt and m.dq[x]:
                h += ["inj recv", f"{rng.choice(['recv', 'rfrom'])} {x} {k}"]
                continue
            emit(recv(rng, x, k, bool(m.dq[x])))
            if m.dq[x]:
                m.dq[x].pop(0)
        elif o[0] == "close":
            if flt:
                h += ["inj close", f"close {o[1]}"]
                continue
            emit(f"close {o[1]}")
            m.close(o[1])
            m.unsure.discard(o[1])
        elif o[0] == "poll":
            on = [x for x in sorted(m.k) if rng.random() < .8] or [min(m.k)]
            if flt:
                h.append("inj poll")
            emit(f"poll {rng.choice([5, 20])} " + " ".join(map(str, on)))
        elif o[0] == "pump":
            a, b = o[1]
            emit(f"pump {a} {b} {rng.choice([1, 5000, 70000, 300000, 1000000])} {rng.choice([1000, 4096, 65536, 100000])} {rng.choice([512, 4096, 65536, 1 << 20])}")
        elif o[0] == "badfd":
            emit(f"badfd {rng.choice(['close', 'send', 'sendto', 'recv', 'rfrom', 'trecv', 'tfrom', 'acc', 'poll'])}")
        elif o[0] == "mkaddr":
            emit(mkaddr(rng))
    return h


def waits():
    """receivers that wait: for nothing, and for bytes that come late"""
    out = []
    for t, pre, at in (("T", ["srv 1 T 1", "cli 2 T 1", "acc 3 1"], 3), ("U", ["srv 1 U 1", "cli 2 U 1"], 1)):
        for k in ("trecv", "tfrom"):
            out.append(pre + [f"{k} {at} 8 300"])
        out.append(pre + [f"poll 300 {at}"])
        out += [pre + [f"late {at} {k} 2 3000 400", f"late {at} {k} 2 3000 20"] for k in ("trecv", "tfrom", "poll")]
    return out


def mkaddr(rng):
    return f"mkaddr {rng.choice([0, 1, 80, 255, 256, 8080, 32767, 32768, 40000, 65535, rng.randrange(65536)])} " + ".".join(str(rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])) for _ in range(4))


def from_behaviours(rng, behs):
    out = []
    for b in behs:
        m, h = Sim(), []
        for c in b:
            op = c[0]
            if op in ("srv", "cli"):
                h.append(f"{op} {c[1]} {c[2]} {c[3]}")
                getattr(m, op)(*c[1:4])
            elif op == "acc":
                h.append(f"acc {c[1]} {c[2]}")
                m.acc(c[1], c[2])
            elif op == "send":
                h.append(f"send {c[1]} {hx(c[2])}")
                m.send(c[1], c[2]) if m.k[c[1]] == "st" else m.sendu(c[1], -m.peer[c[1]], c[2])
            elif op == "sendto":
                h.append(f"sendto {c[1]} {c[2]} {hx(c[3])}")
                m.sendu(c[1], c[2], c[3])
            elif op == "recv":
                x = c[1]
                sure = not (m.k[x] == "st" and m.link[x] in m.unsure) and x not in m.unsure
                h.append(recv(rng, x, c[2]) if sure else f"{rng.choice(['trecv', 'tfrom'])} {x} {c[2]} 300")
                if m.k[x] == "st":
                    m.inb[m.link[x]] = m.inb[m.link[x]][c[2]:]
                else:
                    m.dq[x].pop(0)
            elif op == "idle":
                h.append(recv(rng, c[1], 4, False))
            elif op == "close":
                h.append(f"close {c[1]}")
                m.close(c[1])
                m.unsure.discard(c[1])
            elif op == "poll":
                if m.k:
                    h.append("poll 5 " + " ".join(str(x) for x in sorted(m.k)))
        out.append(h)
    return out
