------------------------------- MODULE FormatsMC -----------------------------
(* Writing record after record and decoding what was written, exhaustively:  *)
(* the record encoders and the decoder of every format agree on every        *)
(* displacement a record can hold.                                           *)
EXTENDS Formats
CONSTANTS N,          \* records per file
          Wide        \* TRUE: every displacement on one axis
Fmts == {"dst", "exp", "u01", "xxx", "tbf", "jef", "pec"}
MaxD(f) == CASE f = "dst" -> 121 [] f = "xxx" -> 124 [] f = "u01" -> 255 [] f = "pec" -> 2047 [] OTHER -> 127
Bound == {0, 1, -1, 2, 4, 5, 13, 14, -13, -14, 40, 41, -40, -41, 62, 63, 64, -63, -64, -65, 121, -121, 124, -124,
          127, -127, 255, -255, 2047, -2047}
Some == {0, 1, -5, 62, -64, 121, -121, 2047}
Ds(f) == {<<a, b>> \in (IF Wide THEN (-MaxD(f) .. MaxD(f)) \X Some ELSE Bound \X Bound) :
            Abs(a) <= MaxD(f) /\ Abs(b) <= MaxD(f)}
Ok(f, fl, a, b) == CASE f = "tbf" /\ fl = JUMP -> a # 0 \/ b # 0
                     [] OTHER -> TRUE
Controls(f) == CASE f = "dst" -> {COLORCHANGE, SEQMODE} [] f \in {"exp", "xxx"} -> {TRIM, COLORCHANGE}
                 [] f \in {"u01"} -> {TRIM, STOP, NEEDLESET, SLOW, FAST} [] f = "tbf" -> {TRIM, STOP} [] OTHER -> {COLORCHANGE}

VARIABLES fmt, n, bytes, x, y, want, on
vars == <<fmt, n, bytes, x, y, want, on>>
Init == fmt \in Fmts /\ n = 0 /\ bytes = << >> /\ x = 0 /\ y = 0 /\ want = << >> /\ on = FALSE
Travel_(f) == IF on THEN SEQEJECT ELSE f
Move_(fl) == /\ n < N
            /\ \E d \in Ds(fmt) :
                 /\ Ok(fmt, fl, d[1], d[2])
                 /\ LET swap == IF Wide /\ n % 2 = 1 THEN <<d[2], d[1]>> ELSE d
                    IN /\ Abs(swap[1]) <= MaxD(fmt) /\ Abs(swap[2]) <= MaxD(fmt)
                       /\ x' = x + 1000 * swap[1] /\ y' = y + 1000 * swap[2]
                       /\ bytes' = bytes \o EncRec(fmt, swap[1], swap[2], fl, 0)
                       /\ want' = Append(want, <<x', y', IF fl = JUMP THEN Travel_(JUMP) ELSE fl, 0>>)
            /\ n' = n + 1 /\ UNCHANGED <<fmt, on>>
Control == /\ n < N
           /\ \E fl \in Controls(fmt) : \E nd \in (IF fl = NEEDLESET THEN {1, 2, 15} ELSE {0}) :
                /\ bytes' = bytes \o EncRec(fmt, 0, 0, fl, IF fl = NEEDLESET THEN nd + 1 ELSE 0)
                \* a speed record of U01 is a stitch record that does not move
                /\ want' = Append(want, <<x, y, fl, IF fl = NEEDLESET THEN nd + 1 ELSE 0>>)
                /\ on' = IF fl = SEQMODE THEN ~on ELSE on
           /\ n' = n + 1 /\ UNCHANGED <<fmt, x, y>>
Done == n = N /\ UNCHANGED vars
Stitch == Move_(STITCH)
Jump == Move_(JUMP)
Next == Stitch \/ Jump \/ Control \/ Done
Spec == Init /\ [][Next]_vars
RoundTrip == LET out == Decode(fmt, bytes \o EncRec(fmt, 0, 0, END, 0), 0, 0, << >>)
             IN out = Append(want, <<x, y, END, 0>>)
\* a file cut anywhere denotes the records before the cut
CutPrefix == n <= 2 /\ ~Wide => \A k \in 0..Len(bytes) :
              LET out == DecodeRaw(fmt, SubSeq(bytes, 1, k), 0, 0, << >>).out
              IN Len(out) <= Len(want) /\ \A i \in DOMAIN out : out[i] = want[i]
=============================================================================
