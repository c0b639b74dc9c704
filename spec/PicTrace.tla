------------------------------ MODULE PicTrace ------------------------------
(* Trace specification of pictures and text exports (P25).                    *)
EXTENDS Pictures, Designs, Commands, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Named == [f \in 0..255 |-> LET k == {i \in DOMAIN CommandNames : CommandNames[i][2] = f} IN IF k = {} THEN << >> ELSE CommandNames[CHOOSE i \in k : TRUE][1]]
E4(C) == LET e == Encoded(C) IN [q |-> [i \in DOMAIN e.out |-> <<e.out[i][1], e.out[i][2], e.out[i][3], e.out[i][5]>>],
                                 rgbs |-> [i \in DOMAIN e.threads |-> IF e.threads[i] \in DOMAIN C.rgbs THEN C.rgbs[e.threads[i]] ELSE -1]]
Low(C) == IF C.pipe THEN E4(C) ELSE [q |-> C.q, rgbs |-> C.rgbs]
Whole(q) == \A i \in DOMAIN q : q[i][1] % 1000 = 0 /\ q[i][2] % 1000 = 0
Tol(C) == IF C.pipe THEN 45 ELSE 1
Failing(C) ==
  LET D == Low(C)
  IN CASE C.fmt = "svg" -> Svg(D.q, D.rgbs, C.svg, Tol(C))
       [] C.fmt = "txt" -> Txt(D.q, D.rgbs, C.rows, C.mimic, Named, Tol(C))
       [] C.fmt = "png" -> IF Whole(D.q) THEN Png(D.q, D.rgbs, C.png, C.lw, C.fancy, C.bg) ELSE {}
       [] C.fmt = "guides" -> Clause("png.guides", \A k \in DOMAIN C.diff : C.diff[k][1] <= 36 \/ C.diff[k][2] <= 36) \cup Clause("png.canvas", C.same)
       [] C.fmt \in {"pec", "pes"} ->
            LET p == IF C.fmt = "pec" THEN 8 ELSE I32(C.bytes, 8)
                w == PecDesign(D.q, Len(D.rgbs))
            IN IF Whole(w.q) THEN Thumbs(C.bytes, p, w.q) \cup ThumbsRead(C.bytes, p, C.read, MinOf(w.n, Len(ColorBlocks(w.q)))) ELSE {}
Verdict == LET C == Cases[c] IN IF ~C.ok THEN {"picture.raised"} ELSE Failing(C)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE ELSE PrintT(<<"design", Low(Cases[c]), "blocks", Sewn_(Low(Cases[c]).q)>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
