-------------------------------- MODULE Held ---------------------------------
(* What a file of each stitch format holds of a design, and what reading it   *)
(* back gives.  C: a record with the design (see Designs), the format and how *)
(* the reader interprets what it finds.                                       *)
EXTENDS Formats, Vp3, Post, Palettes, Designs

\* the threads the header of the file gives
Thr(C) == IF C.pal = "" THEN C.wthr ELSE [i \in DOMAIN C.wthr |-> Palette(C.pal)[C.wthr[i] + 1]]
Posted(C, q, thr) ==
  CASE C.post.kind = "trim" -> [q |-> InterpTrims(q, C.post.cnt, C.post.dist, C.post.clip, <<0>>), thr |-> thr]
    [] C.post.kind = "dup" -> DupAsStop(q, thr)
    [] OTHER -> [q |-> q, thr |-> thr]
Same(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : /\ Near(a[i][1], b[i][1], tol) /\ Near(a[i][2], b[i][2], tol)
                                          /\ a[i][3] = b[i][3] /\ a[i][4] = b[i][4]
\* of a file cut short no more than an end may follow what was read
SameCut(a, b, tol) == \/ Same(a, b, tol)
                      \/ b # << >> /\ b[Len(b)][3] = END /\ Same(a, SubSeq(b, 1, Len(b) - 1), tol)
                      \/ a # << >> /\ a[Len(a)][3] = END /\ Same(SubSeq(a, 1, Len(a) - 1), b, tol)
Sewn(q) == Filter(q, LAMBDA s : s[3] \in {STITCH, SEQEJECT})
\* where a command that does not sew or travel stands is not stored by every format
Sewing_(s) == s[3] \in {STITCH, SEQEJECT, JUMP}
Shape(q) == [i \in DOMAIN q |-> IF Sewing_(q[i]) THEN q[i] ELSE <<0, 0, q[i][3], q[i][4]>>]
Upto(q) == LET e == {i \in DOMAIN q : q[i][3] = END} IN IF e = {} THEN q ELSE SubSeq(q, 1, Min(e))

(* G-code: one record per line, <<g, x, y, m>> with x y in thousandths of a  *)
(* design unit (of 0.1 mm) and None = -999999999 where the word is absent    *)
None == -999999999
GDecode(R) ==
  FoldLeft(LAMBDA out, r :
     IF r[1] \in {0, 1} /\ r[2] # None /\ r[3] # None THEN Append(out, <<r[2], r[3], STITCH, 0>>)
     ELSE IF r[4] \in {0, 1} THEN Append(out, <<0, 0, COLORCHANGE, 0>>)
     ELSE IF r[4] \in {2, 30} THEN Append(out, <<0, 0, END, 0>>)
     ELSE out, << >>, R)
GWritten(q) ==
  LET u == Filter(q, LAMBDA s : s[3] \in {STITCH, COLORCHANGE, STOP, END})
  IN [i \in DOMAIN u |-> IF u[i][3] = STITCH THEN <<u[i][1], u[i][2], STITCH, 0>>
                         ELSE <<0, 0, IF u[i][3] = END THEN END ELSE COLORCHANGE, 0>>]

FileDesign(C) == CASE C.fmt = "vp3" -> Vp3Seen(Vp3Parse(C.bytes).q)
                   [] C.fmt = "gcode" -> GDecode(C.recs)
                   [] OTHER -> Decode(C.fmt, C.bytes, C.base, C.start, C.aux)
WrittenDesign(C) == CASE C.fmt = "vp3" -> Vp3Written(DesignOf(C))
                      [] C.fmt = "gcode" -> IF C.kind = "e"
                            THEN LET w == GWritten(DesignOf(C))        \* the reader flips the axes back
                                 IN [i \in DOMAIN w |-> <<-w[i][1], -w[i][2], w[i][3], w[i][4]>>]
                            ELSE GWritten(DesignOf(C))
                      [] OTHER -> Written(C.fmt, C.o, DesignOf(C))
=============================================================================
