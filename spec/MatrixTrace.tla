----------------------------- MODULE MatrixTrace -----------------------------
(* Trace specification of transforms built step by step and of designs moved as  *)
(* a whole (P07).  The state is the pair of matrices the specification computes; *)
(* each recorded operation is followed by what the real transforms make of some  *)
(* points, asked in every way there is.                                          *)
EXTENDS Matrix, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, reg, bad
vars == <<c, pos, reg, bad>>
Clause(name, holds) == IF holds THEN {} ELSE {name}
Init == c \in DOMAIN Cases /\ pos = 1 /\ reg = <<Identity, Identity>> /\ bad = {}
Op == Cases[c].ops[pos]
Same(a, b) == Near(a[1], b[1], 2) /\ Near(a[2], b[2], 2)
Points == <<<<0, 0>>, <<1000, 0>>, <<0, 1000>>, <<-30000, 70000>>>>
\* probes: for each register, for each way of asking, for each point
Agrees(next) == \A r \in {1, 2} : \A w \in DOMAIN Op.probes[r], i \in DOMAIN Points :
  Same(Op.probes[r][w][i], ApplyM(next[r], Points[i][1], Points[i][2]))
Step ==
  /\ Cases[c].kind = "matrix" /\ pos <= Len(Cases[c].ops)
  /\ LET next == Done1(reg, Op)
     IN /\ bad' = bad \cup Clause("matrix.ok", Op.ok)
                      \cup Clause("matrix.points", ~Op.ok \/ Agrees(next))
                      \cup Clause("matrix.order", ~Op.ok \/ Op.thirds)          \* a third coordinate stays
                      \cup Clause("matrix.equal", (Op.ok /\ Op.whole) => ((Op.equal <=> next[1] = next[2]) /\ (Op.unequal <=> next[1] # next[2])))
                      \cup Clause("matrix.args", Op.args)                       \* what was given is as it was
        /\ reg' = next
  /\ pos' = pos + 1 /\ UNCHANGED c
\* designs: every command's position goes through one transform; everything else stays
D == Cases[c]
Of(d) == CASE d.op = "translate" -> MTrans(d.a[1], d.a[2])
           [] d.op \in {"transform", "blocks"} -> d.m
           [] OTHER -> Identity
Half(v) == RoundMilli(v \div 2)                     \* the centre is taken to the nearest unit
CentreOf(d) == LET q == Centre(d.before) IN
  \* a centre halfway between two units may go either way
  {<<x, y>> : x \in {-Half(q[1]), -(1000 * ((q[1] + 1000) \div 2000)), -(1000 * (((q[1] + 2000) - 1001) \div 2000))},
              y \in {-Half(q[2]), -(1000 * ((q[2] + 1000) \div 2000)), -(1000 * (((q[2] + 2000) - 1001) \div 2000))}}
Moves(d, m) == \A i \in DOMAIN d.before : d.moved[i] => Same(d.after[i], ApplyM(m, d.before[i][1], d.before[i][2]))
Design ==
  /\ D.kind = "design" /\ pos = 1
  /\ bad' = Clause("matrix.ok", D.ok)
            \cup Clause("matrix.design", D.ok => Len(D.after) = Len(D.before)
                   /\ IF D.op = "centre" THEN \E t \in CentreOf(D) : Moves(D, MTrans(t[1], t[2])) ELSE Moves(D, Of(D)))
            \cup Clause("matrix.rest", D.ok => D.rest)
            \cup Clause("matrix.args", D.args)
  /\ pos' = 2 /\ UNCHANGED <<c, reg>>
Finish == LET n == IF Cases[c].kind = "design" THEN 2 ELSE Len(Cases[c].ops) + 1 IN
  pos = n /\ PrintT(<<"VERDICT", c, bad>>) /\ pos' = n + 1 /\ UNCHANGED <<c, reg, bad>>
Rest == pos = (IF Cases[c].kind = "design" THEN 2 ELSE Len(Cases[c].ops) + 1) + 1 /\ UNCHANGED vars
Next == Step \/ Design \/ Finish \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
