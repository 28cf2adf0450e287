------------------------------ MODULE VecTrace ------------------------------
(* Trace validation: every recorded call history of the real containers must *)
(* be a behaviour of Vec. One initial state per history; a history whose     *)
(* next event no Vec action explains is a deadlock (deadlock checking is on).*)
EXTENDS Vec, TLC, Json, IOUtils
VARIABLES sid, l
BG == INSTANCE Big
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)

TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == VecInit /\ sid \in 1..Len(Traces) /\ l = 1

(* the logged projection of all slots: st[i] = <<live, cap, contents>> *)
Project(e) == \A o \in Slots :
    LET p == e.st[o + 1] IN
    /\ p.live = obj'[o].live
    /\ p.live => /\ p.seq = obj'[o].seq
                 /\ p.len = Len(obj'[o].seq)
                 /\ p.cap = obj'[o].cap
                 /\ p.space = obj'[o].cap - Len(obj'[o].seq)
                 /\ p.empty = (obj'[o].seq = <<>>)
NewCap(e, o) == e.st[o + 1].cap
NewSeq(e, o) == e.st[o + 1].seq

Refused(e) == e.out \in {"exit", "abort"}
OK(e)      == e.out = "ok"

Gate(e, pre, act) == IF pre THEN OK(e) /\ act /\ Project(e)
                     ELSE Refused(e) /\ Refuse

Ev(e) ==
  CASE e.op = "create"     -> /\ ~Live(e.o)
                              /\ Gate(e, CreatePre(e.n, e.esz) , Create(e.o, e.n, e.esz))
    \* counting loops: up from f below t, down from t above f, up by steps
    [] e.op = "loop"       -> /\ OK(e) /\ Refuse
                              /\ e.at = (IF e.t <= e.f THEN <<>>
                                         ELSE IF e.k = "f" THEN [i \in 1..(e.t - e.f) |-> e.f + i - 1]
                                         ELSE IF e.k = "r" THEN [i \in 1..(e.t - e.f) |-> e.t - i + 1]
                                         ELSE [i \in 1..((e.t - e.f + e.st - 1) \div e.st) |-> e.f + (i - 1) * e.st])
    \* a container beyond 32 bits: sized, an element set far away, pushed, inserted, removed
    \* stably and fast, popped; a machine with too little address space may refuse it
    [] e.op = "far"        -> /\ Refuse
                              /\ (e.out # "exit" =>
                                  (LET one == BG!Of(1) IN
                                   /\ OK(e) /\ e.cap = e.n /\ e.off = BG!Times(e.at, e.esz)
                                   /\ e.l0 = e.n /\ e.l1 = BG!Plus(e.n, one) /\ e.l2 = BG!Plus(e.l1, one)
                                   /\ e.l3 = e.l1 /\ e.l4 = e.n /\ BG!Plus(e.l5, one) = e.n
                                   /\ ~BG!Lss(e.cap1, e.l1)
                                   /\ e.got = <<1, 2, 3, 2, 2, 2, 2, 3>> /\ e.blocks = 0))
    [] e.op = "destroy"    -> Gate(e, Live(e.o), Destroy(e.o))
    [] e.op = "dup"        -> IF L(e.o) = 0
                              THEN \/ Refused(e) /\ Refuse
                                   \/ OK(e) /\ Dup(e.o, e.d, NewCap(e, e.d)) /\ Project(e)
                              ELSE Gate(e, TRUE, Dup(e.o, e.d, NewCap(e, e.d)))
    [] e.op = "push_back"  -> Gate(e, TRUE, PushBack(e.o, e.v, NewCap(e, e.o)))
    [] e.op = "push_front" -> Gate(e, TRUE, PushFront(e.o, e.v, NewCap(e, e.o)))
    [] e.op = "bulk"       -> Gate(e, TRUE, PushMany(e.o, e.vs, e.back, NewCap(e, e.o)))
    [] e.op = "drain"      -> Gate(e, TRUE, PopMany(e.o, e.n) /\ e.rets = PopManyRet(e.o, e.n))
    [] e.op = "walk_front" -> Gate(e, TRUE, WalkMany(e.o, e.n) /\ e.rets = WalkRet(e.o, e.n, TRUE))
    [] e.op = "walk_back"  -> Gate(e, TRUE, WalkMany(e.o, e.n) /\ e.rets = WalkRet(e.o, e.n, FALSE))
    [] e.op = "insert"     -> Gate(e, IndexPre(e.o, e.at), Insert(e.o, e.v, e.at, NewCap(e, e.o)))
    [] e.op = "pop"        -> Gate(e, TRUE, Pop(e.o))
    [] e.op = "pop_get"    -> Gate(e, TRUE, Pop(e.o) /\ e.ret = PopRet(e.o))
    \* typed pop_get returns 0 for an empty vector
    [] e.op = "pop_getT"   -> Gate(e, TRUE, /\ Pop(e.o)
                                            /\ IF L(e.o) = 0 THEN e.zero ELSE e.ret = PopRet(e.o))
    [] e.op = "set"        -> Gate(e, IndexPre(e.o, e.at), Set(e.o, e.v, e.at))
    [] e.op = "get"        -> Gate(e, IndexPre(e.o, e.at), Get(e.o, e.at) /\ e.ret = GetRet(e.o, e.at))
    [] e.op = "remove_s"   -> Gate(e, IndexPre(e.o, e.at), RemoveS(e.o, e.at))
    [] e.op = "remove_f"   -> Gate(e, IndexPre(e.o, e.at), RemoveF(e.o, e.at))
    [] e.op = "remove_elem"-> Gate(e, TRUE, RemoveElem(e.o, e.v, e.fast))
    [] e.op = "find"       -> Gate(e, TRUE, Find(e.o, e.v) /\ e.ret = FindRet(e.o, e.v))
    [] e.op = "clear"      -> Gate(e, TRUE, Clear(e.o))
    [] e.op = "reserve"    -> Gate(e, ReservePre(e.n), Reserve(e.o, e.n))
    [] e.op = "shrink"     -> IF L(e.o) = 0 /\ obj[e.o].cap # 0
                              THEN \/ Refused(e) /\ Refuse
                                   \/ OK(e) /\ ShrinkEmpty(e.o, NewCap(e, e.o)) /\ Project(e)
                              ELSE Gate(e, TRUE, Shrink(e.o))
    [] e.op = "resize"     -> Gate(e, ResizePre(e.n),
                                   Resize(e.o, e.n, Drop(NewSeq(e, e.o), Min2(e.n, L(e.o)))))
    [] e.op = "slide_front"-> Gate(e, TRUE, Slide(e.o) /\ e.ret = SlideFrontRet(e.o))
    [] e.op = "slide_back" -> Gate(e, TRUE, Slide(e.o) /\ e.ret = SlideBackRet(e.o))
    [] e.op = "slide_reset"-> Gate(e, TRUE, SlideReset(e.o))
    [] e.op = "apply"      -> Gate(e, TRUE, /\ Apply(e.o, e.vals)
                                            /\ e.seen = ApplyVisits(e.o)
                                            /\ e.idx = [i \in 1..L(e.o) |-> i - 1])
    [] e.op = "info"       -> Gate(e, TRUE, /\ Keep /\ e.len = L(e.o) /\ e.cap = obj[e.o].cap
                                            /\ e.space = obj[e.o].cap - L(e.o)
                                            /\ e.esok /\ e.alok /\ e.headok)
    \* a size no memory can hold (2^60 bytes and more): never carried out, whatever its product wraps to
    [] e.op = "vast"       -> (IF BG!Lss(BG!Times(IF e.how = "r" THEN BG!Plus(e.cap, e.n) ELSE e.n, e.esz), BG!Pow2(60)) THEN FALSE
                              ELSE Refused(e) /\ Refuse)
    [] e.op = "nullarg"    -> Refused(e) /\ Refuse
    [] e.op = "fin"        -> OK(e) /\ Keep /\ (\A o \in Slots : ~Live(o)) /\ e.blocks = 0
    [] OTHER               -> FALSE

(* an allocation was made to fail during this call: it must end the process  *)
(* with a failing status and a message                                        *)
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ /\ l <= Len(Traces[sid]) /\ ~dead
     /\ Step(Traces[sid][l])
     /\ l' = l + 1 /\ UNCHANGED sid
  \/ /\ l > Len(Traces[sid])
     /\ UNCHANGED tvars
=============================================================================
