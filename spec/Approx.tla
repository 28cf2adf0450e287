------------------------------- MODULE Approx -------------------------------
(* Random and floating-point helpers.  A floating-point value is the exact   *)
(* number it stands for: [k |-> "fin", n |-> negative?, m |-> magnitude,     *)
(* e |-> power of two] = (+/-) m * 2^e; k = "nan" / "inf" has no value.      *)
(* State: how many normal values were drawn (they are made in pairs) and     *)
(* the draws so far; a draw is any value the documentation allows.           *)
EXTENDS Big
VARIABLES drawn
vars == <<drawn>>
Fin(x) == x.k = "fin"
Mk(n, m, e) == [k |-> "fin", n |-> n /\ m # <<>>, m |-> m, e |-> IF m = <<>> THEN 0 ELSE e]
OfInt(x) == Mk(x < 0, MagOf(IF x < 0 THEN -x ELSE x), 0)
TwoTo(e) == Mk(FALSE, <<1>>, e)
LOCAL Lo(x, y) == IF x.m = <<>> THEN y.e ELSE IF y.m = <<>> THEN x.e ELSE IF x.e < y.e THEN x.e ELSE y.e
LOCAL At(x, e) == IF x.m = <<>> THEN Zero ELSE Num(x.n, IF x.e = e THEN x.m ELSE MMul(x.m, MPow2(x.e - e)))
LOCAL MkN(a, e) == Mk(a.n, a.m, e)
AddF(x, y) == LET e == Lo(x, y) IN MkN(Plus(At(x, e), At(y, e)), e)
NegF(x) == Mk(~x.n, x.m, x.e)
SubF(x, y) == AddF(x, NegF(y))
MulF(x, y) == Mk(x.n # y.n, MMul(x.m, y.m), x.e + y.e)
AbsF(x) == Mk(FALSE, x.m, x.e)
CmpF(x, y) == LET e == Lo(x, y) IN Cmp(At(x, e), At(y, e))
LeqF(x, y) == CmpF(x, y) <= 0
LssF(x, y) == CmpF(x, y) < 0
EqF(x, y) == CmpF(x, y) = 0
(* |x - y| <= size / k *)
Near(x, y, k, size) == LeqF(MulF(AbsF(SubF(x, y)), OfInt(k)), size)
(* of comparable magnitude at all: keeps the alignment above affordable when the code is far off *)
Comparable(x, y) == x.m = <<>> \/ y.m = <<>> \/ (x.e - y.e <= 300 /\ y.e - x.e <= 300)

(* ------------------------------ the helpers ------------------------------ *)
(* [0; bound), an empty range giving its only end *)
InBound(bound, r) == Fin(r) /\ ~r.n /\ (IF bound.m = <<>> THEN r.m = <<>> ELSE LssF(r, bound))
InRange(lo, hi, r) == Fin(r) /\ (IF EqF(lo, hi) THEN EqF(r, lo) ELSE LeqF(lo, r) /\ LssF(r, hi))
(* mu + std * x, x the standard value the generator gives in the same state *)
NormalOf(mu, std, x, r) == /\ Fin(r) /\ Fin(x) /\ LeqF(AbsF(x), OfInt(16))
                           /\ LET t == MulF(std, x) IN Near(r, AddF(mu, t), 1048576, AddF(AbsF(mu), AbsF(t)))
(* the point as far along [outMin, outMax] as x is along [xMin, xMax] *)
MapOf(x, xMin, xMax, oMin, oMax, r) ==
  LET p == MulF(SubF(x, xMin), SubF(oMax, oMin))
      q == MulF(oMin, SubF(xMax, xMin))
  IN Fin(r) /\ Near(MulF(r, SubF(xMax, xMin)), AddF(p, q), 1073741824, MulF(TwoTo(-15), AddF(AbsF(p), AbsF(q))))
Half == 500000   \* one part in a million of the root is two of its square
RootOf(v, r) == /\ Fin(r) /\ ~r.n
                /\ LET s == MulF(r, r) IN Comparable(s, v) /\ (IF v.m = <<>> THEN r.m = <<>> ELSE Near(s, v, Half, v))
InvRootOf(v, r) == /\ Fin(r) /\ ~r.n
                   /\ LET s == MulF(MulF(r, r), v) IN Comparable(s, OfInt(1)) /\ Near(s, OfInt(1), Half, OfInt(1))
(* closer than the tolerance (a negative one stands for the single-precision epsilon);
   left open where rounding the difference decides: not when the difference is itself
   a single-precision number *)
Single(d) == LssF(Mk(FALSE, d.m, 0), TwoTo(24))
CloseOf(x, y, tol, ret) ==
  LET t == IF tol.n THEN TwoTo(-23) ELSE tol
      d == AbsF(SubF(x, y))
  IN ((~Single(d) /\ Near(d, t, 4194304, t)) \/ (ret = LssF(d, t)))
(* Counts per bucket over n draws: every bucket is hit by at least one draw in twenty *)
SpreadOf(counts, n) == \A i \in 1..Len(counts) : counts[i] * 20 >= n

(* a range with room for every bucket: its ends are at most 2^16 times its width, and it is not down among the
   least single-precision numbers *)
Wide(lo, hi) == LET d == SubF(hi, lo) w == MulF(d, OfInt(65536))
                IN LeqF(TwoTo(-120), d) /\ LeqF(AbsF(lo), w) /\ LeqF(AbsF(hi), w)

Draw == drawn' = drawn + 1
Same == UNCHANGED drawn
=============================================================================
