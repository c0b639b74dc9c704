------------------------------ MODULE ObjectsMC ------------------------------
EXTENDS Objects
CONSTANTS N
VARIABLES cells, objs, memo, was, target
vars == <<cells, objs, memo, was, target>>
Vals == {0, 1}
Values(c, o) == [p \in DOMAIN o |-> Value(c, o, p)]
Init == /\ cells = (1 :> 0 @@ 2 :> 1) /\ objs = (1 :> <<1, 2>>) /\ memo = << >> /\ was = Values(cells, objs) /\ target = 0
\* an encoding: some function of the value, here the value reversed
Enc(v) == [i \in DOMAIN v |-> v[(Len(v) + 1) - i]]
Keep(v, r) == memo' = [k \in (DOMAIN memo) \cup {v} |-> IF k = v THEN r ELSE memo[k]]
Derive(o, r) == LET d == Derived(cells, objs, 1 + Cardinality(DOMAIN objs), r)
                IN cells' = d.cells /\ objs' = d.objs /\ target' = 1 + Cardinality(DOMAIN objs)
Copy == \E o \in DOMAIN objs : Cardinality(DOMAIN objs) < N /\ Derive(o, Value(cells, objs, o)) /\ UNCHANGED memo
Encode == \E o \in DOMAIN objs : Cardinality(DOMAIN objs) < N /\ Derive(o, Enc(Value(cells, objs, o))) /\ Keep(Value(cells, objs, o), Enc(Value(cells, objs, o)))
Write == \E o \in DOMAIN objs : Keep(Value(cells, objs, o), Enc(Value(cells, objs, o))) /\ target' = 0 /\ UNCHANGED <<cells, objs>>
Modify == \E o \in DOMAIN objs, v \in Vals : \E k \in CellsOf(objs, o) : cells' = Changed(cells, k, v) /\ target' = o /\ UNCHANGED <<objs, memo>>
Next == (Copy \/ Encode \/ Write \/ Modify) /\ was' = Values(cells, objs)
Spec == Init /\ [][Next]_vars
Separate == \A o, p \in DOMAIN objs : o # p => CellsOf(objs, o) \cap CellsOf(objs, p) = {}
Isolated == \A o \in DOMAIN was : o # target => Value(cells, objs, o) = was[o]
Repeatable == \A v \in DOMAIN memo : memo[v] = Enc(v)
=============================================================================
