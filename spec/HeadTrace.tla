------------------------------ MODULE HeadTrace ------------------------------
(* Trace specification of headers and section fields (P10): a case is one file  *)
(* written by the real code, the design and the threads that were written.      *)
EXTENDS Headers, Designs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Low(C) == IF ~C.pipe THEN C.q ELSE LET e == Encoded(C) IN [i \in DOMAIN e.out |-> <<e.out[i][1], e.out[i][2], e.out[i][3], e.out[i][5]>>]
Nthr(C) == IF ~C.pipe THEN Len(C.rgbs) ELSE Len(Encoded(C).threads)
\* colours of the threads written; those invented for lack of threads are not known
Rgbs(C) == IF ~C.pipe THEN C.rgbs ELSE LET e == Encoded(C) IN [i \in DOMAIN e.threads |-> IF e.threads[i] \in DOMAIN C.rgbs THEN C.rgbs[e.threads[i]] ELSE <<-1, -1, -1>>]
\* XXX knows no stop: it is written as a change to the same thread
WithStops(C, D) == StopAsDup(D, Rgbs(C), COLORCHANGE).thr
Failing(C) ==
  LET D == Low(C)
      B == C.bytes
  IN CASE C.fmt = "dst" -> Dst(B, D) [] C.fmt = "tbf" -> Tbf(B, D, Rgbs(C)) [] C.fmt = "ct0" -> Ct0(B, D) [] C.fmt = "u01" -> U01(B, D) [] C.fmt = "xxx" -> Xxx(B, D, WithStops(C, D))
       [] C.fmt = "jef" -> Jef(B, D) [] C.fmt = "pec" -> PecFile(B, D, Nthr(C)) [] C.fmt = "pes" -> Pes(B, D, Nthr(C), C.version, Rgbs(C))
       [] C.fmt = "vp3" -> Vp3File(B, D, Nthr(C)) [] C.fmt = "pmv" -> Pmv(B, D)
       [] C.fmt = "inf" -> Inf(B, C.rgbs) [] C.fmt = "edr" -> Edr(B, C.rgbs) [] C.fmt = "col" -> Col(B, C.rgbs)
       [] C.fmt = "gcode" -> TextRows(C.rows, D, 10) [] C.fmt = "csv" -> TextRows(C.rows, D, 1)
Verdict == LET C == Cases[c] IN IF ~C.ok THEN {"head.raised"} ELSE Failing(C)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE ELSE PrintT(<<"design", Low(Cases[c]), "threads", Nthr(Cases[c]), "ext", Ext(Low(Cases[c]))>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
