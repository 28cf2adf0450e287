------------------------------- MODULE VecMC -------------------------------
(* Exhaustive exploration of Vec with small constants. hist records the      *)
(* shortest call history to each state (hidden from the state by VIEW); the  *)
(* action constraint prints every explored transition as a call history,     *)
(* which the conformance driver replays against the real library.            *)
EXTENDS Vec, TLC, Json
CONSTANTS Vals, MaxLen, MaxCap
VARIABLE hist
MCView == vars

H(op) == hist' = Append(hist, op)
Caps(o, n) == IF n <= obj[o].cap THEN {obj[o].cap} ELSE {3 * Max2(1, obj[o].cap)}
Idx == 0..MaxLen

MCInit == VecInit /\ hist = <<>>

MCNext ==
  /\ ~dead
  /\ \E o \in Slots :
    \/ \E n \in 0..2 : /\ ~Live(o) /\ (\A p \in Slots : p < o => Live(p)) /\ H(<<"create", o, n>>)
                       /\ IF CreatePre(n, 1) THEN Create(o, n, 1) ELSE Refuse
    \/ Live(o) /\ Destroy(o) /\ H(<<"destroy", o>>)
    \/ \E d \in Slots : /\ Live(o) /\ ~Live(d) /\ L(o) > 0 /\ (\A p \in Slots : p < d => Live(p))
                        /\ Dup(o, d, L(o)) /\ H(<<"dup", o, d>>)
    \/ \E v \in Vals : /\ Live(o) /\ H(<<"push_back", o, v>>)
                       /\ \E nc \in Caps(o, L(o) + 1) : PushBack(o, v, nc)
    \/ \E v \in Vals : /\ Live(o) /\ H(<<"push_front", o, v>>)
                       /\ \E nc \in Caps(o, L(o) + 1) : PushFront(o, v, nc)
    \/ \E v \in Vals, at \in Idx : /\ Live(o) /\ H(<<"insert", o, v, at>>)
                       /\ IF IndexPre(o, at) THEN \E nc \in Caps(o, L(o) + 1) : Insert(o, v, at, nc) ELSE Refuse
    \/ Live(o) /\ Pop(o) /\ H(<<"pop", o>>)
    \/ Live(o) /\ Pop(o) /\ H(<<"pop_get", o>>)
    \/ \E v \in Vals, at \in Idx : Live(o) /\ H(<<"set", o, v, at>>) /\ IF IndexPre(o, at) THEN Set(o, v, at) ELSE Refuse
    \/ \E at \in Idx : Live(o) /\ H(<<"get", o, at>>) /\ IF IndexPre(o, at) THEN Get(o, at) ELSE Refuse
    \/ \E at \in Idx : Live(o) /\ H(<<"remove_s", o, at>>) /\ IF IndexPre(o, at) THEN RemoveS(o, at) ELSE Refuse
    \/ \E at \in Idx : Live(o) /\ H(<<"remove_f", o, at>>) /\ IF IndexPre(o, at) THEN RemoveF(o, at) ELSE Refuse
    \/ \E v \in Vals : Live(o) /\ Find(o, v) /\ H(<<"find", o, v>>)
    \/ \E v \in Vals, f \in BOOLEAN : Live(o) /\ RemoveElem(o, v, f) /\ H(<<"remove_elem", o, v, f>>)
    \/ Live(o) /\ Clear(o) /\ H(<<"clear", o>>)
    \/ \E n \in 0..1 : Live(o) /\ H(<<"reserve", o, n>>) /\ IF ReservePre(n) THEN Reserve(o, n) ELSE Refuse
    \/ Live(o) /\ L(o) > 0 /\ Shrink(o) /\ H(<<"shrink", o>>)
    \/ \E n \in 0..L(o) : Live(o) /\ H(<<"resize", o, n>>) /\ IF ResizePre(n) THEN Resize(o, n, <<>>) ELSE Refuse
    \/ Live(o) /\ Slide(o) /\ H(<<"slide_front", o>>)
    \/ Live(o) /\ Slide(o) /\ H(<<"slide_back", o>>)
    \/ Live(o) /\ SlideReset(o) /\ H(<<"slide_reset", o>>)
    \/ Live(o) /\ Apply(o, <<>>) /\ H(<<"apply", o, 0>>)

Bound == \A o \in Slots : L(o) <= MaxLen /\ obj[o].cap <= MaxCap
Emit  == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))

(* frame condition: a call changes at most the container it is applied to
   (dup changes only its target) *)
Indep == [][\A o \in Slots : obj'[o] # obj[o] =>
             (\E k \in {Len(hist')} : hist'[k][2] = o \/ (hist'[k][1] = "dup" /\ hist'[k][3] = o))]_vars
=============================================================================
