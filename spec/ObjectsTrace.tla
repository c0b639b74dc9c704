---------------------------- MODULE ObjectsTrace -----------------------------
(* Trace specification of histories over design objects (P06).  The state is    *)
(* every object's value and what each operation has made of each value so far.  *)
(* An operation: what ("derive", "use" or "modify"), how (operation and         *)
(* settings), srcs (objects it reads), obj (made or modified), res (result of a *)
(* use), after (the values of all objects).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, world, memo, bad
vars == <<c, pos, world, memo, bad>>
Init == c \in DOMAIN Cases /\ pos = 1 /\ world = Cases[c].world /\ memo = << >> /\ bad = {}
Clause(name, holds) == IF holds THEN {} ELSE {name}
Op == Cases[c].ops[pos]
Key == <<Op.how, [i \in DOMAIN Op.srcs |-> world[Op.srcs[i]]]>>
Result == IF Op.what = "derive" THEN Op.after[Op.obj] ELSE Op.res
Step ==
  /\ pos <= Len(Cases[c].ops)
  /\ bad' = bad \cup Clause("objects.unchanged", \A o \in DOMAIN world : ~(Op.what = "modify" /\ o = Op.obj) => Op.after[o] = world[o])
                \cup Clause("objects.settings", Op.settings)
                \cup Clause("objects.new", Op.what = "derive" /\ Op.ok => Op.obj = Len(world) + 1)
                \cup Clause("objects.copy", Op.what = "derive" /\ Op.ok /\ Op.copy => Op.after[Op.obj] = world[Op.srcs[1]])
                \cup Clause("objects.repeat", Op.what # "modify" /\ (Op.what = "use" \/ Op.ok) /\ Key \in DOMAIN memo => memo[Key] = Result)
  /\ memo' = IF Op.what # "modify" /\ (Op.what = "use" \/ Op.ok) THEN [k \in (DOMAIN memo) \cup {Key} |-> IF k = Key THEN Result ELSE memo[k]] ELSE memo
  /\ world' = Op.after
  /\ pos' = pos + 1 /\ UNCHANGED c
Judge == pos = Len(Cases[c].ops) + 1 /\ PrintT(<<"VERDICT", c, bad>>) /\ pos' = pos + 1 /\ UNCHANGED <<c, world, memo, bad>>
Done == pos = Len(Cases[c].ops) + 2 /\ UNCHANGED vars
Next == Step \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
