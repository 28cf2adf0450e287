------------------------------ MODULE AllocMC ------------------------------
EXTENDS Alloc, TLC, Json
CONSTANTS Sizes, MaxAllocs, MaxReallocs, Owners
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
MCInit == AllocInit /\ hist = <<>>
Live == up /\ ~dead
MCNext == Live /\
  \/ \E n \in Sizes \cup {0}, o \in Owners : H(<<"alloc", n, o>>) /\ IF AllocPre(n) THEN Alloc(S.a + 1, n, o) ELSE Refuse
  \/ \E i \in Ids, n \in Sizes \cup {0} : H(<<"realloc", i, n>>) /\ IF AllocPre(n) THEN Realloc(i, n) ELSE Refuse
  \/ \E i \in Ids : H(<<"free", i>>) /\ Free(i)
  \/ Destroy /\ H(<<"destroy">>)
Bound == S.a <= MaxAllocs /\ S.r <= MaxReallocs
Emit == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))
(* nothing is lost: what was ever handed out is either current or freed, and only reallocation can reuse a block's bytes *)
Total == [][up' => (S'.cur + S'.freed >= S.cur + S.freed)]_vars
(* an owner's blocks change only by a call on them *)
Frame == [][\A i \in Ids : up' /\ i \in DOMAIN S'.blk => S'.blk[i].o = S.blk[i].o]_vars
=============================================================================
