----------------------------- MODULE LoadTrace -----------------------------
(* Trace specification of whole files (P14): the bytes of a file (code points  *)
(* for text) and what the reader made of it.                                   *)
EXTENDS Loads, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in DOMAIN a : /\ Near(a[i][1], b[i][1], 2) /\ Near(a[i][2], b[i][2], 2) /\ a[i][3] = b[i][3] /\ a[i][4] = b[i][4]
Read(C) == IF C.fmt = "vp3" THEN Vp3Seen(C.res) ELSE C.res
Verdict ==
  LET C == Cases[c]
  IN IF ~C.ok THEN {"r.raised"}
     ELSE LET L == Load(C.fmt, C.bytes)
              got == {<<C.ext[i][1], C.ext[i][2]>> : i \in DOMAIN C.ext}
              oth == {<<C.other[i][1], C.other[i][2]>> : i \in DOMAIN C.other}
              fixed(t) == Len(t[2]) = 2 /\ t[2][1] = -1
          IN Clause("r.decode", Same(L.q, Read(C)))
             \cup Clause("r.threads", /\ Len(L.thr) = Len(C.thr)
                                      /\ \A i \in DOMAIN L.thr : L.thr[i][1] = C.thr[i][1] /\ (fixed(L.thr[i]) \/ L.thr[i] = C.thr[i]))
             \cup Clause("r.texts", {e \in L.ext : e[2] # << >>} = got /\ (C.fmt = "dst" => L.other = oth))
             \cup Clause("r.version", L.version = C.version)
             \cup Clause("r.thumbnails", L.gfx = C.gfx)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE ELSE PrintT(<<"read", Cases[c].res, Cases[c].thr, Cases[c].ext, Cases[c].other, "expected", Load(Cases[c].fmt, Cases[c].bytes)>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
