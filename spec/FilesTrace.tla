----------------------------- MODULE FilesTrace ------------------------------
(* Trace specification of operations by file name (P21): each recorded          *)
(* operation is taken as a step of the directory machine and what the code did  *)
(* (outcome, directory, design read) is compared.  refs: what the handlers      *)
(* named make of the same input through a stream, <<handler, content>>.         *)
EXTENDS Files, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, dir, bad
vars == <<c, pos, dir, bad>>
Map(l) == [n \in {l[i][1] : i \in DOMAIN l} |-> l[CHOOSE i \in DOMAIN l : l[i][1] = n][2]]
Init == c \in DOMAIN Cases /\ pos = 1 /\ dir = Map(Cases[c].dir) /\ bad = {}
Clause(name, holds) == IF holds THEN {} ELSE {name}
Op == Cases[c].ops[pos]
RefOf(h) == LET k == {i \in DOMAIN Op.refs : Op.refs[i][1] = h}
            IN IF k = {} THEN Assert(FALSE, <<"no reference for", h, Op>>) ELSE Op.refs[CHOOSE i \in k : TRUE][2]
WriteRef(n) == IF Kind(n).writes THEN RefOf(Kind(n).fmt) ELSE 0
Expected ==
  CASE Op.op = "write" -> DoWrite(dir, Op.name, WriteRef(Op.name))
    [] Op.op = "read" -> DoRead(dir, Op.name)
    [] Op.op = "convert" -> DoConvert(dir, Op.name, Op.to, IF DoRead(dir, Op.name).outcome = "ok" THEN WriteRef(Op.to) ELSE 0)
    [] Op.op = "writeas" -> DoWriteAs(dir, Op.name, RefOf(Op.as))
    [] Op.op = "readas" -> DoReadAs(dir, Op.name)
Step == /\ pos <= Len(Cases[c].ops)
        /\ LET e == Expected
           IN /\ dir' = e.dir
              /\ bad' = bad \cup Clause("files.outcome", Op.outcome = e.outcome)
                            \cup Clause("files.directory", Map(Op.after) = e.dir)
                            \cup Clause("files.design", Op.op \in {"read", "readas"} /\ e.outcome = "ok" /\ Op.outcome = "ok" =>
                                           Op.res = RefOf(IF Op.op = "read" THEN e.handler ELSE Op.as))
        /\ pos' = pos + 1 /\ UNCHANGED c
Judge == /\ pos = Len(Cases[c].ops) + 1 /\ PrintT(<<"VERDICT", c, bad>>) /\ pos' = pos + 1 /\ UNCHANGED <<c, dir, bad>>
Done == pos = Len(Cases[c].ops) + 2 /\ UNCHANGED vars
Next == Step \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
