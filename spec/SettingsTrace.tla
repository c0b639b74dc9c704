---------------------------- MODULE SettingsTrace ----------------------------
(* Trace specification of what reaches a format's writer (P21): the design      *)
(* encoded with the caller's settings, and the format's defaults only where the *)
(* caller gave none; or, with encoding off, the design as it is.                *)
EXTENDS Formats, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
EncM == INSTANCE Encoder
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}
\* formats whose files are of the design as it is, unless asked
AsIs == {"csv", "json", "col", "edr", "inf"}
Encodes(C) == CASE C.encode = "on" -> TRUE [] C.encode = "off" -> FALSE [] OTHER -> C.fmt \notin AsIs
Same(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : /\ EncM!Near(a[i][1], b[i][1], tol) /\ EncM!Near(a[i][2], b[i][2], tol) /\ a[i][3] = b[i][3]
                                          /\ (a[i][3] \in {COLORCHANGE, NEEDLESET} => a[i][4] = b[i][4] /\ a[i][5] = b[i][5])
Enc(C) == EncM!Encode(C.over @@ Defaults(C.fmt), C.src, [i \in 1..C.nthr |-> i])
Verdict ==
  LET C == Cases[c]
  IN IF ~C.ok THEN {"settings.raised"}
     ELSE Clause("settings.kept", C.kept) \cup Clause("settings.once", C.calls = 1)
          \cup (IF Encodes(C) THEN LET e == Enc(C) IN Clause("settings.encoded", Same(C.out, e.out, 3)) \cup Clause("settings.threads", C.thr = e.threads)
                ELSE Clause("settings.as_is", C.out = C.src) \cup Clause("settings.threads", C.thr = [i \in 1..C.nthr |-> i]))
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c] IN PrintT(<<"want", IF Encodes(C) THEN Enc(C) ELSE C.src, "got", C.out, C.thr, C.over @@ Defaults(C.fmt)>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
