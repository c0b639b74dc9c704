------------------------------- MODULE FilesMC -------------------------------
(* Every history of operations on a few names: contents are <<format, design>>. *)
EXTENDS Files
CONSTANTS N
VARIABLES dir, last, k
vars == <<dir, last, k>>
\* a.dst  A.DST  b.Svg  c.hus  .dst  x.y/d  e.vp3.
Names == {<<97, 46, 100, 115, 116>>, <<65, 46, 68, 83, 84>>, <<98, 46, 83, 118, 103>>, <<99, 46, 104, 117, 115>>,
          <<46, 100, 115, 116>>, <<120, 46, 121, 47, 100>>, <<101, 46, 118, 112, 51, 46>>}
Designs == {1, 2}
Init == dir = << >> /\ last = [op |-> "", outcome |-> "ok", handler |-> NONE, before |-> << >>] /\ k = 0
Do(op, r) == dir' = r.dir /\ last' = [op |-> op, outcome |-> r.outcome, handler |-> r.handler, before |-> dir] /\ k' = k + 1
Write == \E n \in Names, d \in Designs : Do("write", DoWrite(dir, n, <<Kind(n).fmt, d>>))
Read == \E n \in Names : Do("read", DoRead(dir, n))
Convert == \E n, m \in Names : Do("convert", DoConvert(dir, n, m, <<Kind(m).fmt, IF Has(dir, n) THEN dir[n][2] ELSE 0>>))
Next == k < N /\ (Write \/ Read \/ Convert)
Spec == Init /\ [][Next]_vars
\* every file is of the type its name says, and holds a design that was given
Typed == \A n \in DOMAIN dir : dir[n][1] = Kind(n).fmt /\ Kind(n).writes /\ dir[n][2] \in Designs
Refused == last.outcome # "ok" => dir = last.before
Reading == last.op = "read" => dir = last.before
Cases == /\ Kind(<<97, 46, 100, 115, 116>>) = Kind(<<65, 46, 68, 83, 84>>)
         /\ Kind(<<46, 100, 115, 116>>).fmt = NONE /\ Kind(<<120, 46, 121, 47, 100>>).fmt = NONE /\ Kind(<<101, 46, 118, 112, 51, 46>>).fmt = NONE
Unique == \A i, j \in DOMAIN Registry : Registry[i].ext = Registry[j].ext => i = j
=============================================================================
