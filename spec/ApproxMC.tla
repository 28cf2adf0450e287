------------------------------ MODULE ApproxMC ------------------------------
(* Every short history of draws (normal values come in pairs, so histories   *)
(* matter), and the laws of the helpers on a grid of exact values.           *)
EXTENDS Approx, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, last
mcvars == <<vars, hist, last>>
MCView == <<drawn, last, hist>>
H(op) == hist' = Append(hist, op)
Grid == {Mk(i < 0, MagOf(IF i < 0 THEN -i ELSE i), -1) : i \in -8..8}     \* -4, -3.5 .. 4
Bounds == {0, 1, 3}
Pairs == {<<-1, 1>>, <<0, 1>>, <<-3, -2>>, <<2, 2>>}
Norms == {<<0, 1>>, <<3, 2>>, <<-1, 0>>}
MCInit == drawn = 0 /\ hist = <<>> /\ last = [op |-> "none"]
MCNext == /\ Len(hist) < MaxOps
          /\ \/ H(<<"u64">>) /\ Same /\ last' = [op |-> "u64"]
             \/ \E b \in Bounds : \E r \in Grid : InBound(OfInt(b), r) /\ H(<<"f32", b>>) /\ Same /\ last' = [op |-> "f32", lo |-> OfInt(0), hi |-> OfInt(b), r |-> r]
             \/ \E p \in Pairs : \E r \in Grid : InRange(OfInt(p[1]), OfInt(p[2]), r) /\ H(<<"uni", p[1], p[2]>>) /\ Same /\ last' = [op |-> "uni", lo |-> OfInt(p[1]), hi |-> OfInt(p[2]), r |-> r]
             \/ \E p \in Norms : H(<<"norm", p[1], p[2]>>) /\ Draw /\ last' = [op |-> "norm"]
Emit == PrintT("BEH " \o ToJson(hist'))
(* a drawn value never leaves its range, and an empty range yields its end *)
Inside == last.op \in {"f32", "uni"} => LeqF(last.lo, last.r) /\ (LssF(last.lo, last.hi) => LssF(last.r, last.hi)) /\ (EqF(last.lo, last.hi) => EqF(last.r, last.lo))
Pairing == drawn <= Len(hist)
(* -------------------------------- laws ----------------------------------- *)
G == -6..6
Q(n, k) == MulF(OfInt(n), TwoTo(-k))
ASSUME \A x \in G, y \in G : AddF(Q(x, 1), Q(y, 3)) = AddF(Q(y, 3), Q(x, 1)) /\ EqF(AddF(Q(x, 1), Q(y, 3)), Q(4 * x + y, 3)) /\ EqF(MulF(Q(x, 1), Q(y, 3)), Q(x * y, 4))
ASSUME \A x \in G, y \in G : LssF(Q(x, 1), Q(y, 3)) = (4 * x < y)
ASSUME \A v \in 0..40 : RootOf(Q(v * v, 4), Q(v, 2)) /\ (\A w \in 0..40 : RootOf(Q(v * v, 4), Q(w, 2)) => w = v)
ASSUME \A v \in {2, 3, 5, 9} : ~RootOf(OfInt(v), NegF(OfInt(v))) /\ \A r \in 0..(v * 32) : RootOf(OfInt(v), Q(r, 5)) => r * r = v * 1024
ASSUME \A k \in -60..60 : InvRootOf(TwoTo(2 * k), TwoTo(-k)) /\ ~InvRootOf(TwoTo(2 * k), TwoTo(1 - k)) /\ RootOf(TwoTo(2 * k), TwoTo(k))
ASSUME \A a \in {-2, 0, 3}, b \in {-1, 5}, c \in {-4, 0, 1}, d \in {-1, 0, 7} : a # b =>
          /\ MapOf(OfInt(a), OfInt(a), OfInt(b), OfInt(c), OfInt(d), OfInt(c)) /\ MapOf(OfInt(b), OfInt(a), OfInt(b), OfInt(c), OfInt(d), OfInt(d))
          /\ MapOf(Q(a + b, 1), OfInt(a), OfInt(b), OfInt(c), OfInt(d), Q(c + d, 1))
          /\ \A r \in -40..40 : MapOf(Q(3 * a + b, 2), OfInt(a), OfInt(b), OfInt(c), OfInt(d), Q(r, 2)) => r = 3 * c + d
ASSUME \A x \in G, y \in G, t \in 0..6 : LET d == IF x < y THEN y - x ELSE x - y IN (CloseOf(Q(x, 2), Q(y, 2), Q(t, 2), d < t) /\ ~CloseOf(Q(x, 2), Q(y, 2), Q(t, 2), ~(d < t)))
ASSUME \A x \in G, y \in G : CloseOf(Q(x, 2), Q(y, 2), OfInt(-1), x = y) /\ ~CloseOf(Q(x, 2), Q(y, 2), OfInt(-1), x # y)
ASSUME \A mu \in G, sd \in 0..3, x \in G : NormalOf(OfInt(mu), OfInt(sd), Q(x, 1), Q(2 * mu + sd * x, 1)) /\ ~NormalOf(OfInt(mu), OfInt(sd), Q(x, 1), Q(2 * mu + sd * x + 1, 1))
=============================================================================
