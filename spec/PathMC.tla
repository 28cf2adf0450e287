------------------------------- MODULE PathMC -------------------------------
EXTENDS Path, TLC, Json
CONSTANTS Alpha, MaxLen
Parts == {<<>>, <<97>>, <<47>>, <<98, 47, 99>>}
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
TextsUpTo(n) == UNION {[1..k -> Alpha] : k \in 0..n}
MCInit == cur \in TextsUpTo(MaxLen) /\ res = <<82>> /\ dead = FALSE /\ hist = <<<<"set", cur>>>>
MCNext == ~dead /\ Len(hist) < 5 /\
  \/ H(<<"pop">>) /\ Pop
  \/ H(<<"validate">>) /\ Validate
  \/ \E g \in BOOLEAN : H(<<"base", g>>) /\ BaseInto(g)
  \/ \E g \in BOOLEAN, p \in Parts, q \in Parts, n \in 1..2 : Len(res) < 4 /\ Len(hist) = 1 /\ Len(cur) = 0
        /\ LET ps == IF n = 1 THEN <<p>> ELSE <<p, q>> IN
           H(<<"build", g, ps>>) /\ IF BuildPre(ps) THEN BuildInto(g, ps) ELSE Refuse
  \/ \E h \in {<<>>, <<Sep, 104>>}, isset \in BOOLEAN : H(<<"expand", isset, h>>) /\ IF cur = <<>> THEN Refuse ELSE UNCHANGED vars
Emit == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))
=============================================================================
