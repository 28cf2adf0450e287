from . import core, seqgen
from .core import conform, model_check, sample, strat

PROPS = {}


def prop(pid, level="model_checking", assumptions=(), rule=None):
    def deco(f):
        PROPS[pid] = dict(run=f, level=level, assumptions=assumptions, rule=rule)
        return f
    return deco


def seq_histories(ctx, kind, nb, nr, slots_long=3):
    rng = ctx.rng("seq" + kind)
    out = []
    beh = model_check(ctx, "VecMC", "VecMC.cfg")
    out += seqgen.from_behaviours(rng, strat(rng, beh, nb), kind)
    for i in range(nr):
        out.append(seqgen.random_history(rng, kind, rng.choice([15, 40, 80]), slots=rng.choice([1, 1, 2, slots_long])))
    return out + seqgen.long_histories(rng, kind, ctx.quick)


SEQ_OPS = ["create", "destroy", "dup", "push_back", "push_front", "insert", "pop", "pop_get", "set", "get", "remove_s",
           "remove_f", "remove_elem", "find", "clear", "reserve", "resize", "shrink", "apply", "fin", "bulk", "drain"]


@prop("C01")
def c01(ctx):
    scr = seq_histories(ctx, "v", 8000 if ctx.quick else 150000, 500 if ctx.quick else 12000)
    conform(ctx, "seq", "VecTrace", "VecTrace.cfg", scr, min_ops=SEQ_OPS + ["pop_getT"])
    conform(ctx, "seq", "VecTrace", "VecTrace.cfg", seqgen.far("v"), sanitize=False, tag="far", jobs=1, min_ops=["far"])


@prop("C02")
def c02(ctx):
    scr = seq_histories(ctx, "p", 8000 if ctx.quick else 150000, 500 if ctx.quick else 12000)
    conform(ctx, "seq", "VecTrace", "VecTrace.cfg", scr, min_ops=SEQ_OPS)
    conform(ctx, "seq", "VecTrace", "VecTrace.cfg", seqgen.far("p"), sanitize=False, tag="far", jobs=1, min_ops=["far"])


# ---------------------------------------------------------------- strings
from . import strgen
from .core import strat


def str_check(ctx, cfgs, fam, nb, nr, view=0.0, extra=(), min_ops=(), slots=(1, 2, 3)):
    rng = ctx.rng("str")
    if ctx.quick:
        model_check(ctx, "StrLawsMC", "StrLawsMC.cfg")
    else:
        model_check(ctx, "StrLawsMC", "StrLawsMC_deep.cfg", workers=6)
    scr = []
    for c in cfgs:
        b = model_check(ctx, "StrMC", f"StrMC_{c}.cfg")
        scr += strgen.from_behaviours(rng, strat(rng, b, nb // len(cfgs)), per=10)
    for _ in range(nr):
        scr.append(strgen.random_history(rng, fam, rng.choice([10, 25, 50]), slots=rng.choice(slots), view=view))
    scr += list(extra)
    conform(ctx, "str", "StrTrace", "StrTrace.cfg", scr, min_ops=min_ops)


@prop("C03")
def c03(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    str_check(ctx, ["edit"], {"edit": 1}, 9000 * k, 500 * k, extra=strgen.long_formats(rng) + strgen.boundary(rng) + strgen.long_histories(rng, "edit", ctx.quick),
              min_ops=[o for o in strgen.EDIT] + ["create", "create_len", "create_cap", "own", "fin"])


@prop("C04")
def c04(ctx):
    k = 1 if ctx.quick else 20
    str_check(ctx, ["search"], {"search": 1, "edit": .1}, 9000 * k, 500 * k, extra=strgen.long_histories(ctx.rng("long"), "search", ctx.quick), min_ops=list(strgen.SEARCH))


@prop("C05")
def c05(ctx):
    k = 1 if ctx.quick else 20
    str_check(ctx, ["parts"], {"parts": 1, "edit": .1}, 9000 * k, 500 * k, extra=strgen.long_histories(ctx.rng("long"), "parts", ctx.quick), min_ops=list(strgen.PARTS))


@prop("C20")
def c20(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    ref = [h for h in (strgen.refuse(rng) for _ in range(3000 * k)) if h[0].startswith("static")]
    str_check(ctx, ["view"], {"search": 1, "edit": .2, "parts": .3, "slide": .5}, 8000 * k, 300 * k, view=.6, extra=ref + strgen.long_histories(rng, "view", ctx.quick, view=True), min_ops=["static", "find", "can_find", "split", "slide_front"])


@prop("C08")
def c08(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    b = model_check(ctx, "StrMC", "StrMC_slide.cfg")
    scr = strgen.from_behaviours(rng, b, per=10)
    scr += [strgen.random_history(rng, {"slide": 1, "edit": .12}, rng.choice([30, 80]), slots=rng.choice([1, 2]), view=.2) for _ in range(300 * k)]
    conform(ctx, "str", "StrTrace", "StrTrace.cfg", scr, min_ops=["slide_front", "slide_back", "slide_reset", "apply"])
    beh = model_check(ctx, "VecMC", "VecMC.cfg")
    beh = [x for x in beh if any(c[0].startswith(("slide", "apply")) for c in x)]
    for kind in "vp":
        scr = seqgen.from_behaviours(rng, sample(rng, beh, 4000 * k), kind)
        scr += [seqgen.random_history(rng, kind, rng.choice([30, 80]), slots=rng.choice([1, 2]), slides=.35) for _ in range(300 * k)]
        scr += seqgen.long_histories(rng, kind, ctx.quick, slides=True)
        scr += seqgen.loops(rng)
        conform(ctx, "seq", "VecTrace", "VecTrace.cfg", scr, min_ops=["loop", "slide_front", "slide_back", "slide_reset", "apply", "walk_front", "walk_back"])


@prop("C06")
def c06(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 15
    beh = model_check(ctx, "VecMC", "VecMC.cfg")
    ref = [b for b in beh if b.refused]
    for kind in "vp":
        scr = [h for h in (seqgen.from_behaviour(rng, b, kind) for b in strat(rng, ref, 700 * k)) if h]
        scr += [seqgen.refuse_history(rng, kind) for _ in range(1000 * k)]
        scr += [seqgen.random_history(rng, kind, rng.randrange(1, 8), slots=1, weights={"destroy": 0}, fin=False) + [f"nullarg 0 {w}"]
                for w in range(31) for _ in range(3 if ctx.quick else 10)]
        scr += seqgen.vast(rng, kind, lambda: seqgen.random_history(rng, kind, rng.randrange(1, 8), slots=1, weights={"destroy": 0}, fin=False))
        conform(ctx, "seq", "VecTrace", "VecTrace.cfg", scr, min_ops=["vast!exit", "nullarg!exit", "insert!exit", "set!exit", "get!exit", "remove_s!exit", "remove_f!exit", "reserve!exit", "resize!exit", "create!exit"])
    b = model_check(ctx, "StrMC", "StrMC_edit.cfg")
    b = [x for x in b if x.refused]
    scr = [[strgen.conc(c, rng) for c in x] for x in strat(rng, b, 1500 * k)]
    scr += [strgen.refuse(rng) for _ in range(2500 * k)]
    scr += [["create 0 x616263 0", f"nullarg 0 {w}"] for w in range(103)] + [["create_cap 0 4 1", f"nullarg 0 {w}"] for w in range(103)]
    scr += [[rng.choice(["create 0 x616263 0", "create_cap 0 4 1", "create_len 0 7 0"]), f"vast 0 {h} {n}"] for h in "lcrz" for n in (2**64 - 1, 2**64 - 2, 2**64 - 3, 2**64 - 4, 2**64 - 5, 2**64 - 6, 2**64 - 8, 2**64 - 9, 2**63, 2**63 - 1, 2**62)]
    conform(ctx, "str", "StrTrace", "StrTrace.cfg", scr, min_ops=["vast!exit", "nullarg!exit", "set!exit", "insert!exit", "append!exit"])
    sb = [x for x in model_check(ctx, "SpanMC", "SpanMC.cfg") if x.refused]
    scr = miscgen.span_from_behaviours(rng, strat(rng, sb, 500 * k)) + [miscgen.span_refuse(rng) for _ in range(300 * k)]
    scr += [miscgen.span_random(rng, 3) + [f"badcall {w}"] for w in range(25)]
    conform(ctx, "span", "SpanTrace", "SpanTrace.cfg", scr, min_ops=["get!exit", "set!exit", "make!exit", "badcall!exit"])
    ab = [x for x in model_check(ctx, "AllocMC", "AllocMC.cfg") if x.refused]
    scr = allocgen.from_behaviours(rng, strat(rng, ab, 500 * k))
    scr += [allocgen.random_direct(rng, rng.randrange(12))[:-1] + [f"badcall {w}"] for w in range(11) for _ in range(3)]
    conform(ctx, "alloc", "AllocTrace", "AllocTrace.cfg", scr, min_ops=["alloc!exit", "realloc!exit", "badcall!exit"])
    conform(ctx, "arith", "ArithTrace", "ArithTrace.cfg", [[f"badcall {w}"] for w in range(15)], min_ops=["badcall!exit"])


# ---------------------------------------------------------------- allocator
from . import allocgen


def alloc_scripts(ctx, nb, nd, nc):
    rng = ctx.rng("alloc")
    beh = model_check(ctx, "AllocMC", "AllocMC.cfg")
    scr = allocgen.from_behaviours(rng, strat(rng, beh, nb))
    scr += [allocgen.random_direct(rng, rng.choice([20, 60, 200]), rng.choice([.3, .5, .8])) for _ in range(nd)]
    scr += [allocgen.random_containers(rng, rng.choice([20, 60, 120])) for _ in range(nc)]
    return scr


@prop("C07")
def c07(ctx):
    k = 1 if ctx.quick else 15
    model_check(ctx, "AllocMC", "AllocMC_own.cfg", emit=False)
    scr = alloc_scripts(ctx, 6000 if ctx.quick else 10**6, 250 * k, 300 * k)
    rng = ctx.rng("waves")
    scr += [allocgen.waves(rng, rng.choice([300, 700, 1400])) for _ in range(24 * k)]
    # blocks of more than 32 bits: without the sanitizer's shadow, so that nothing but address space is used
    conform(ctx, "alloc", "AllocTrace", "AllocTrace.cfg", allocgen.huge(), sanitize=False, tag="huge", jobs=1, min_ops=["huge"])
    conform(ctx, "alloc", "AllocTrace", "AllocTrace.cfg", scr, min_ops=["bulk", "alloc", "realloc", "free", "destroy", "cnew", "clib", "coff", "cop", "cdel", "print"])


@prop("C21", level="fault_enumeration",
      rule="each history is replayed once per allocation it makes, with that allocation failing; distinct = different recorded history in which the failure was delivered")
def c21(ctx):
    rng = ctx.rng("x")
    q = ctx.quick
    lim = 5000 if q else 60000
    for kind in "vp":
        beh = [b for b in model_check(ctx, "VecMC", "VecMC.cfg") if not b.refused]
        scr = seqgen.from_behaviours(rng, strat(rng, beh, 400 if q else 6000), kind, per=1)
        scr += [seqgen.random_history(rng, kind, 40, slots=2) for _ in range(40 if q else 400)]
        core.faults(ctx, "seq", "VecTrace", "VecTrace.cfg", scr, lim)
    scr = []
    for c in ("edit", "search", "parts"):
        b = [x for x in model_check(ctx, "StrMC", f"StrMC_{c}.cfg") if not x.refused]
        scr += strgen.from_behaviours(rng, strat(rng, b, 400 if q else 6000), per=1)
    scr += [strgen.random_history(rng, {"edit": 1, "search": .5, "parts": 1}, 25, slots=2) for _ in range(60 if q else 600)]
    core.faults(ctx, "str", "StrTrace", "StrTrace.cfg", scr, lim)
    scr = [["destroy", "new"] + allocgen.random_direct(rng, 40, .8) for _ in range(30 if q else 300)]
    scr += [["destroy", "new"] + allocgen.random_containers(rng, 30) for _ in range(60 if q else 600)]
    core.faults(ctx, "alloc", "AllocTrace", "AllocTrace.cfg", scr, lim)
    scr = [pathgen.path_random(rng, 12) for _ in range(40 if q else 400)]
    core.faults(ctx, "path", "PathTrace", "PathTrace.cfg", scr, lim // 3)
    scr = [pathgen.fs_random(rng, 15) for _ in range(40 if q else 400)]
    core.faults(ctx, "fs", "FsTreeTrace", "FsTreeTrace.cfg", scr, lim // 3, link=pathgen.FSWRAP)
    scr = [filegen.random_history(rng, 12, faults=False) for _ in range(60 if q else 600)]
    core.faults(ctx, "file", "FileIOTrace", "FileIOTrace.cfg", scr, lim // 3, link=["-Wl,--wrap=fread"])
    scr = [sum((arggen.parse(rng) for _ in range(4)), []) for _ in range(120 if q else 1200)]
    core.faults(ctx, "argopt", "ArgOptTrace", "ArgOptTrace.cfg", scr, lim // 3)
    scr = [miscgen.mem_ops(rng, 12) for _ in range(60 if q else 600)]
    core.faults(ctx, "arith", "ArithTrace", "ArithTrace.cfg", scr, lim // 3)


# ------------------------------------------------------- spans, index maps
from . import miscgen


@prop("C09")
def c09(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    model_check(ctx, "BigMC", "BigMC.cfg", emit=False)
    beh = model_check(ctx, "SpanMC", "SpanMC.cfg")
    scr = miscgen.span_from_behaviours(rng, strat(rng, beh, 6000 * k))
    scr += [miscgen.span_random(rng, rng.choice([10, 40])) for _ in range(400 * k)]
    scr += [miscgen.span_refuse(rng) for _ in range(300 * k)]
    scr += [miscgen.index_ops(rng, 10) for _ in range(100 * k)]
    scr += [miscgen.span_far(rng, 6) for _ in range(20 * k)]
    conform(ctx, "span", "SpanTrace", "SpanTrace.cfg", scr, min_ops=["far", "make", "get", "set", "poke", "i2", "u2", "i3", "u3"])


@prop("C19")
def c19(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    model_check(ctx, "BigMC", "BigMC.cfg", emit=False)
    model_check(ctx, "RunsMC", "RunsMC.cfg", emit=False)
    beh = model_check(ctx, "ArithMC", "ArithMC.cfg")
    scr = miscgen.mem_from_behaviours(strat(rng, beh, 6000 * k))
    scr += [miscgen.mem_ops(rng, 20) for _ in range(200 * k)]
    scr += [miscgen.mem_large(rng) for _ in range(60 * k)]
    scr += [miscgen.cmp_ops(rng, 12) for _ in range(250 * k)]
    scr += [miscgen.math_ops(rng, 8) for _ in range(150 * k)]
    scr += [["status"]] + [[f"badcall {w}"] for w in range(15)]
    conform(ctx, "arith", "ArithTrace", "ArithTrace.cfg", scr,
            min_ops=["memmove", "memcopy", "memset", "memcmp", "gswap", "lmemmove", "lmemcopy", "lmemset", "lmemcmp", "lgswap", "pswap", "min", "max", "clamp", "pal", "gcd", "lcm", "status", "vmem", "badcall!exit"])


# ------------------------------------------------------------------- paths
from . import pathgen


@prop("C10")
def c10(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    beh = model_check(ctx, "PathMC", "PathMC.cfg")
    scr = pathgen.path_from_behaviours(rng, strat(rng, beh, 8000 * k))
    scr += [pathgen.path_random(rng, rng.choice([10, 40])) for _ in range(400 * k)]
    scr += [[f"cwd {i} {j}", f"exe {i}"] for i in (0, 1) for j in (0, 1)] + [["nocwd"]]
    scr += [[f"badcall {w}"] for w in range(20)]
    conform(ctx, "path", "PathTrace", "PathTrace.cfg", scr, min_ops=["pop", "validate", "base", "build", "expand", "where", "nowhere", "badcall!exit"])


FS_OPS = ["exists", "isdir", "isfile", "size", "mkdir", "mkdirp", "rmdir", "rmr", "remove", "rename", "list", "listr"]


@prop("C11")
def c11(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    beh = model_check(ctx, "FsTreeMC", "FsTreeMC.cfg")
    scr = pathgen.fs_from_behaviours(rng, strat(rng, beh, 3000 * k))
    scr += [pathgen.fs_random(rng, rng.choice([15, 40]), rng.choice([0, 0, .3])) for _ in range(400 * k)]
    scr += [pathgen.fs_deep(rng) for _ in range(40 * k)]
    conform(ctx, "fs", "FsTreeTrace", "FsTreeTrace.cfg", scr, link=pathgen.FSWRAP, min_ops=FS_OPS)


# ------------------------------------------------------------------- files
from . import filegen


FREAD = ["-Wl,--wrap=fread"]


@prop("C12")
def c12(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    scr = []
    for c in ("", "_one"):
        beh = model_check(ctx, "FileIOMC", f"FileIOMC{c}.cfg")
        scr += filegen.from_behaviours(rng, strat(rng, beh, 3000 * k))
    scr += [filegen.random_history(rng, rng.choice([8, 25])) for _ in range(500 * k)]
    scr += [[f"bad {w}"] for w in range(21)]
    conform(ctx, "file", "FileIOTrace", "FileIOTrace.cfg", scr, link=FREAD, min_ops=["write", "read", "rbuf", "full", "put", "drop", "bad!exit"])


from . import convgen


@prop("C14")
def c14(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    model_check(ctx, "BigMC", "BigMC.cfg", emit=False)
    beh = model_check(ctx, "ConvMC", "ConvMC.cfg")
    scr = convgen.from_behaviours(beh)
    scr += [convgen.ints(rng, 40) for _ in range(250 * k)]
    scr += [convgen.floats(rng, 25) for _ in range(120 * k)]
    scr += [convgen.small(rng) for _ in range(400 * k)]
    scr += [convgen.sweep("i8", -128, 127), convgen.sweep("u8", 0, 255)]
    for ty, lo in (("i16", -32768), ("u16", 0)):
        if ctx.quick:
            scr += [convgen.sweep(ty, lo + rng.randrange(101), lo + 65535, 101)]
        else:
            scr += [convgen.sweep(ty, a, a + 1023) for a in range(lo, lo + 65536, 1024)]
    scr += [[f"bad {w}"] for w in range(22)]
    conform(ctx, "conv", "ConvTrace", "ConvTrace.cfg", scr, min_ops=["from", "to", "num", "to!exit", "bad!exit"])


from . import arggen


@prop("C13")
def c13(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    beh = model_check(ctx, "ArgOptMC", "ArgOptMC.cfg")
    scr = arggen.from_behaviours(rng, beh)
    for n, g in ((700 * k, arggen.parse), (30 * k, arggen.help_)):
        scr += [sum((g(rng) for _ in range(6)), []) for _ in range(n)]
    scr += [arggen.wide(rng) for _ in range(60 * k)]
    scr += [[f"bad {w}"] for w in range(6)]
    conform(ctx, "argopt", "ArgOptTrace", "ArgOptTrace.cfg", scr, min_ops=["parse", "help", "bad!exit"])


# ------------------------------------------------------------------- dates
from . import dategen

DIFF = "dif 2023 5 25 18 40 0 4 145 2023 5 19 20 31 1 5 139"
DIFF_KEY = "vt_datetime_diff(2023-05-25 18:40:00, 2023-05-19 20:31:01)"


@prop("C15")
def c15(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    model_check(ctx, "CalendarMC", "CalendarMC.cfg" if ctx.quick else "CalendarMC_deep.cfg", emit=False, workers=6, timeout=3000)
    known = core.known(ctx, DIFF_KEY)
    scr = [["tz utc", DIFF]]
    scr += [dategen.ops(rng, 40) for _ in range(400 * k)]
    # every year there is
    scr += [["tz utc"] + [f"years {y} {min(y + 127, 32767)}" for y in range(z, min(z + 1024, 32768), 128)] for z in range(1, 32768, 1024)]
    # every day of a stretch of years, in every zone
    for y in ((1899, 1900, 1969, 1970, 2000, 2023, 2024, 2100) if ctx.quick else list(range(1890, 2110)) + [4, 100, 400, 1000, 1600, 3000, 9999]):
        for z in (("utc", "est", "aest") if y > 1970 else ("utc", "ist")):
            h = [f"tz {z}"]
            for m in range(1, 13):
                for d in range(1, dategen.mdays(y, m) + 1):
                    t = rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0)])
                    v = [y, m, d, *t, 0, 0]
                    h.append(rng.choice(["facts ", "to "]) + dategen.S(v) if rng.random() < .8 else "create " + dategen.S(v[:6] + [-1, -1]))
            scr.append(h)
    tr = conform(ctx, "date", "CalendarTrace", "CalendarTrace.cfg", scr, tlc_env={"KNOWN_DIFF": "1" if known else "0"},
                 min_ops=["create", "facts", "to", "from", "op", "dif", "now"])
    ev = [e for e in tr[0] if e["op"] == "dif"]
    if known and ev and ev[0].get("r", {}).get("s") != {"n": False, "m": [59]}:
        ctx.findings.append(known)


@prop("C16")
def c16(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    beh = model_check(ctx, "DateTextMC", "DateTextMC.cfg" if ctx.quick else "DateTextMC_deep.cfg")
    scr = dategen.texts_from(sample(rng, beh, 200000))
    scr += dategen.text_refuse(rng, sample(rng, beh, 1200 * k))
    scr += [dategen.texts(rng, 40) for _ in range(250 * k)]
    scr += [dategen.fmt_small(rng) for _ in range(40 * k)]
    scr += [[f"bad {w}"] for w in range(14)]
    conform(ctx, "date", "DateTextTrace", "DateTextTrace.cfg", scr, min_ops=["fmt", "valid", "parse", "nowtext", "fmt!exit", "parse!exit", "bad!exit"])


# --------------------------------------------------------------------- log
from . import loggen


@prop("C17", level="model_checking")
def c17(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 15
    beh = model_check(ctx, "LogMC", "LogMC.cfg" if ctx.quick else "LogMC_deep.cfg", mem="10g", timeout=1500)
    scr = loggen.from_behaviours(rng, strat(rng, beh, 3000 * k, key=lambda b: str((b[-1][0], b[-1][1:][:2], b.refused))))
    scr += [loggen.history(rng, rng.choice([3, 8, 20]), end=rng.random() < .7) for _ in range(1500 * k)]
    conform(ctx, "log", "LogTrace", "LogTrace.cfg", scr,
            min_ops=["route", "routeall", "dfile", "doff", "lname", "log", "mac", "dbg", "nofd", "log!exit", "mac!exit", "dbg!exit", "route!exit", "lname!exit"],
            # release builds keep everything but the debug assertions and debug messages
            release=lambda x: all(0 <= e.get("l", 0) <= 5 and (e["out"] == "ok" or e.get("k") not in ("a", "c")) for e in x))


# ------------------------------------------------------------------- sockets
from . import sockgen

SOCKLINK = ["-Wl," + ",".join("--wrap=" + f for f in "socket setsockopt bind listen connect accept accept4 poll close send sendto recv recvfrom read write recvmsg sendmsg ppoll".split())]


@prop("C18", level="model_checking")
def c18(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 10
    sfx = "" if ctx.quick else "_deep"
    beh = strat(rng, model_check(ctx, "SockMC", f"SockMC{sfx}.cfg", mem="8g", timeout=1500), 1500 * k)
    beh += strat(rng, model_check(ctx, "SockMC", f"SockMC_udp{sfx}.cfg", mem="8g", timeout=1500), 1500 * k)
    scr = sockgen.from_behaviours(rng, beh)
    scr += [sockgen.history(rng, rng.choice([8, 20, 40])) for _ in range(600 * k)]
    scr += [["init"] + [f"badfd {w}" for w in ("close", "send", "sendto", "recv", "rfrom", "trecv", "tfrom", "acc", "poll")], ["mkaddr 80 NULL"]]
    scr += sockgen.waits()
    scr += [[sockgen.mkaddr(rng) for _ in range(40)] for _ in range(5)]
    conform(ctx, "sock", "SockTrace", "SockTrace.cfg", scr, link=SOCKLINK,
            min_ops=["srv", "cli", "acc", "close", "send", "sendto", "recv", "rfrom", "trecv", "tfrom", "poll", "pump", "late", "badfd", "mkaddr", "init", "mkaddr!exit"])


# ------------------------------------------- random and floating-point helpers
from . import approxgen


@prop("C22")
def c22(ctx):
    rng = ctx.rng("x")
    k = 1 if ctx.quick else 20
    model_check(ctx, "BigMC", "BigMC.cfg", emit=False)
    beh = model_check(ctx, "ApproxMC", "ApproxMC.cfg" if ctx.quick else "ApproxMC_deep.cfg")
    scr = approxgen.from_behaviours(rng, strat(rng, beh, 600 * k))
    scr += [approxgen.draws(rng, rng.choice([6, 25])) for _ in range(120 * k)]
    scr += [approxgen.many(rng, rng.choice([4000, 20000])) for _ in range(60 * k)]
    scr += [approxgen.pure(rng, 20) for _ in range(250 * k)]
    conform(ctx, "approx", "ApproxTrace", "ApproxTrace.cfg", scr, link=approxgen.LINK,
            min_ops=["u64", "f32", "uni", "norm", "manyf", "manyu", "manyn", "manyx", "map", "sqrt", "isqrt", "close"])
