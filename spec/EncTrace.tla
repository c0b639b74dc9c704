------------------------------- MODULE EncTrace -------------------------------
(* Trace specification: every recorded run of the real transcoder is stepped *)
(* through Encoder's transition function, command by command; at the end the *)
(* recorded output is compared with the specified one, property by property. *)
EXTENDS Encoder, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, st
vars == <<c, pos, st>>

Src == Cases[c].src
Init == /\ c \in DOMAIN Cases
        /\ pos = 1
        /\ st = EncInit(Cases[c].cfg, Cases[c].src, Cases[c].tl)

SamePts(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in DOMAIN a : /\ a[i][3] = b[i][3]
                                             /\ Near(a[i][1], b[i][1], tol)
                                             /\ Near(a[i][2], b[i][2], tol)
Sewn(q) == Filter(q, LAMBDA s : s[3] \in {STITCH, SEQEJECT})
Idx(q) == [i \in DOMAIN q |-> i]
\* the last jump of each run of jumps, and everything sewn, in order
Travel(q) == LET keep == SelectSeq(Idx(q), LAMBDA i : (q[i][3] \in {STITCH, SEQEJECT})
                                   \/ ((q[i][3] = JUMP) /\ ((i = Len(q)) \/ (q[i + 1][3] # JUMP))))
             IN [k \in DOMAIN keep |-> q[keep[k]]]
Moves(q) == Filter(q, LAMBDA s : s[3] \in {STITCH, SEQEJECT, JUMP})
\* the sub-list of commands in the set F, each with the number of sewn points before it
Marked(q, F) ==
  FoldLeft(LAMBDA a, s : IF s[3] \in {STITCH, SEQEJECT} THEN [a EXCEPT !.n = @ + 1]
                         ELSE IF s[3] \in F THEN [a EXCEPT !.l = Append(@, <<a.n, s>>)] ELSE a,
           [n |-> 0, l |-> << >>], q).l
SameMarked(a, b, tol, attrs) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : /\ a[i][1] = b[i][1] /\ a[i][2][3] = b[i][2][3]
                         /\ Near(a[i][2][1], b[i][2][1], tol) /\ Near(a[i][2][2], b[i][2][2], tol)
                         /\ (attrs /\ a[i][2][3] # STOP) => /\ a[i][2][4] = b[i][2][4] /\ a[i][2][5] = b[i][2][5]
\* independent statements
Within(q, ms, mj) ==
  \A i \in DOMAIN q :
    LET px == IF i = 1 THEN 0 ELSE q[i - 1][1]
        py == IF i = 1 THEN 0 ELSE q[i - 1][2]
        lim == IF q[i][3] = JUMP THEN mj ELSE ms
    IN q[i][3] \in {STITCH, JUMP, SEQEJECT} => Abs(q[i][1] - px) <= lim + 2 /\ Abs(q[i][2] - py) <= lim + 2
SequinsOk(q) ==
  FoldLeft(LAMBDA a, s : IF s[3] = SEQMODE THEN [a EXCEPT !.on = ~@]
                         ELSE IF s[3] = SEQEJECT /\ ~a.on THEN [a EXCEPT !.ok = FALSE]
                         ELSE IF s[3] \in {JUMP, TRIM} /\ a.on THEN [a EXCEPT !.ok = FALSE] ELSE a,
           [on |-> FALSE, ok |-> TRUE], q).ok
Count(q, f) == Cardinality({i \in DOMAIN q : q[i][3] = f})

Clause(name, holds) == IF holds THEN {} ELSE {name}
Verdict ==
  LET C == Cases[c]
      e == EncFinish(st)
      A == C.out
      E == e.out
      T == C.tol
  IN IF ~C.ok THEN {"P01.raised", "P02.raised", "P03.raised", "P04.raised", "P05.raised", "P07.raised"}
     ELSE Clause("P01.penetrations", SamePts(Sewn(A), Sewn(E), T))
     \cup Clause("P01.travel", SamePts(Travel(A), Travel(E), T))
     \cup Clause("P02.moves", SamePts(Moves(A), Moves(E), T))
     \cup Clause("P02.limit", C.bounded => Within(A, C.cfg.ms, C.cfg.ms))
     \cup Clause("P03.threads", C.thr = e.threads)
     \cup Clause("P03.changes", SameMarked(Marked(A, {COLORCHANGE, NEEDLESET, STOP}),
                                           Marked(E, {COLORCHANGE, NEEDLESET, STOP}), T, TRUE))
     \cup Clause("P03.oneperblock", e.tcc = COLORCHANGE =>
                    Len(C.thr) = (IF e.ord = -1 THEN 0 ELSE 1 + Count(A, COLORCHANGE)))
     \cup Clause("P04.lowlevel", \A i \in DOMAIN A : A[i][3] \in LowLevel)
     \cup Clause("P04.end", /\ A # << >> /\ A[Len(A)][3] = END /\ Count(A, END) = 1)
     \cup Clause("P04.control", SameMarked(Marked(A, {TRIM, STOP, END, SEQMODE}),
                                           Marked(E, {TRIM, STOP, END, SEQMODE}), T, FALSE))
     \cup Clause("P04.sequin", SequinsOk(A))
     \cup Clause("P05.full", SamePts(A, E, T))
     \cup Clause("P07.full", SamePts(A, E, T))

Step == /\ pos <= Len(Src)
        /\ st' = EncStep(Cases[c].cfg, Src, Cases[c].tl, pos, st)
        /\ pos' = pos + 1 /\ UNCHANGED c
Judge == /\ pos = Len(Src) + 1
         /\ PrintT(<<"VERDICT", c, Verdict>>)
         /\ pos' = pos + 1 /\ UNCHANGED <<c, st>>
Done == pos = Len(Src) + 2 /\ UNCHANGED vars
Next == Step \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
