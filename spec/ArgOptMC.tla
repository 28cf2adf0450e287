------------------------------ MODULE ArgOptMC ------------------------------
(* The parser as a machine that consumes one argument after the other, over   *)
(* all argument vectors of a small vocabulary.                                *)
EXTENDS ArgOpt, TLC, Json
CONSTANTS MaxArgs
VARIABLES args, pos, vals, status
vars == <<args, pos, vals, status, dead>>
O(l, s) == [long |-> l, short |-> s, ok |-> TRUE, ty |-> "str"]
Tab == <<O(<<45, 45, 97>>, <<45, 97>>), O(<<45, 45, 98>>, <<45, 98>>), O(<<99>>, <<>>)>>     \* --a -a, --b -b, c ""
Vocab == {<<45, 97>>, <<45, 45, 97>>, <<45, 97, 61, 120>>, <<45, 45, 98, 61>>, <<45, 98>>, <<120>>, <<>>, <<99>>, <<99, 61, 49, 61, 50>>, <<61, 120>>, <<45>>, HelpShort, HelpLong, <<63, 120>>, <<45, 120, 61, 49>>}
Unset == <<0>>
MCInit == args \in UNION {[1..n -> Vocab] : n \in 0..MaxArgs} /\ pos = 1 /\ vals = [j \in 1..Len(Tab) |-> Unset] /\ status = "run" /\ dead = FALSE
Stop(s) == status' = s /\ UNCHANGED <<args, pos, vals, dead>>
Help == status = "run" /\ pos = 1 /\ WantsHelp(args) /\ Stop("help")
Done == status = "run" /\ pos > Len(args) /\ Stop("ok")
Consume == /\ status = "run" /\ pos <= Len(args) /\ ~WantsHelp(args)
           /\ LET r == Reads(Tab, args, pos) IN
              IF r.j = 0 THEN Stop("err")
              ELSE vals' = [vals EXCEPT ![r.j] = r.v] /\ pos' = r.i /\ UNCHANGED <<args, status, dead>>
MCNext == Help \/ Done \/ Consume
Emit == status' # "run" => PrintT("BEH " \o ToJson(<<<<status', args>>>>))
(* the machine ends as the closed form says: same verdict, same values, others untouched *)
Agrees == status # "run" =>
  LET o == Outcome(Tab, args) IN
  /\ (status = "ok") = (o.ret = 0) /\ (status = "help") = (o.ret = 1) /\ (status = "err") = (o.ret = -1)
  /\ \A j \in 1..Len(Tab) : vals[j] = IF Mine(o.as, j) = {} THEN Unset ELSE LastFor(o.as, j)
Progress == [][pos' >= pos /\ (status' = "run" => pos' > pos)]_vars
(* success means that every argument is an option or the value of the one before it *)
Explained == status = "ok" => \A i \in 1..Len(args) : Find(Tab, Name(args[i])) # 0 \/ (i > 1 /\ IsValue(args[i]) /\ ~HasCut(args[i - 1]) /\ Find(Tab, Name(args[i - 1])) # 0)
Ends == <>(status # "run")
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
=============================================================================
