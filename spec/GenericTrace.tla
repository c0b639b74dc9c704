---------------------------- MODULE GenericTrace ----------------------------
(* Trace specification of the template writer (P22).                            *)
EXTENDS Generic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}
Set(l) == {l[i] : i \in DOMAIN l}
Want(C) == LET o == Tokens(C.q, Set(C.T), C.zinc) IN [i \in DOMAIN o |-> <<o[i][1], Shown(o[i][2])>>]
Lim(q, k) == IF q = << >> THEN <<0, 0>> ELSE LET s == {q[i][k] : i \in DOMAIN q} IN <<Min(s), Max(s)>>
Stats(C) ==
  LET x == Lim(C.q, 1)
      y == Lim(C.q, 2)
      e == <<x[1], y[1], x[2], y[2], x[2] - x[1], y[2] - y[1]>>
  IN <<Len(C.q), Len(C.thr)>> \o e \o [i \in DOMAIN e |-> e[i] \div 10]
Verdict ==
  LET C == Cases[c]
  IN IF ~C.ok THEN {"template.raised"}
     ELSE LET w == Want(C)
          IN Clause("template.texts", [i \in DOMAIN C.out |-> C.out[i][1]] = [i \in DOMAIN w |-> w[i][1]])
             \cup Clause("template.values", Len(C.out) = Len(w) => \A i \in DOMAIN w : C.out[i][1] = w[i][1] => C.out[i][2] = w[i][2])
             \cup Clause("template.ends", C.first = (IF "pattern_start" \in Set(C.T) THEN 1 ELSE 0) /\ C.last = (IF "pattern_end" \in Set(C.T) THEN 1 ELSE 0))
             \cup Clause("template.statistics", C.first = 1 => C.stats = Stats(C) /\ \A i \in DOMAIN C.counts : C.counts[i][2] = Cnt(C.q, {C.counts[i][1]}))
             \cup Clause("template.threads", C.threads = IF "thread_entry" \in Set(C.T) THEN C.thr ELSE << >>)
             \cup Clause("template.metadata", C.meta = IF "metadata_entry" \in Set(C.T) THEN C.ext ELSE << >>)
             \cup Clause("template.names", C.names)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c] IN PrintT(<<"want", Want(C), Stats(C), "got", C.out, C.stats>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
