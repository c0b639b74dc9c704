------------------------------- MODULE Designs -------------------------------
(* The low-level design behind a recorded run of a writer.                     *)
EXTENDS Formats
EncM == INSTANCE Encoder
\* the low-level design: given, or what the encoder specification makes of a high-level one
\* under the format's defaults and the caller's settings
Encoded(C) == EncM!Encode(C.over @@ Defaults(C.efmt), C.src, [i \in 1..C.nthr |-> i])
\* PEC spells a stop as a repeated colour: where no thread is in force there is nothing to repeat.
\* `have` threads were given; blocks that are sewn get one.
PecStops(q, have) ==
  LET step(a, s) ==
        IF s[3] = STITCH THEN [a EXCEPT !.need = MaxOf(@, a.k + 1)]
        ELSE IF s[3] = COLORCHANGE THEN [a EXCEPT !.k = @ + 1] ELSE a
      avail == MaxOf(have, FoldLeft(step, [k |-> 0, need |-> 0], q).need)
      drop(a, s) ==
        IF s[3] = COLORCHANGE THEN [a EXCEPT !.k = @ + 1, !.out = Append(@, s)]
        ELSE IF s[3] = STOP /\ (a.none \/ a.k >= avail) THEN [a EXCEPT !.none = TRUE, !.out = Append(@, <<s[1], s[2], SLOW, 0>>)]
        ELSE [a EXCEPT !.out = Append(@, s)]
  IN FoldLeft(drop, [k |-> 0, none |-> FALSE, out |-> << >>], q).out
DesignOf(C) == IF ~C.pipe THEN C.q
               ELSE LET e == Encoded(C)
                        q == [i \in DOMAIN e.out |-> <<e.out[i][1], e.out[i][2], e.out[i][3], e.out[i][5]>>]
                    IN IF C.fmt = "pec" THEN PecStops(q, Len(e.threads)) ELSE q
=============================================================================
