------------------------------ MODULE ConvTrace ------------------------------
(* Trace specification of conversions: files made from files, one after the   *)
(* other.  Each step is judged against the conversion of what the file before *)
(* it was read as; at the end the last file is held against the first.        *)
EXTENDS Convert, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, src, thr, bad
vars == <<c, pos, src, thr, bad>>
Init == c \in DOMAIN Cases /\ pos = 1 /\ src = Cases[c].src /\ thr = Cases[c].thr /\ bad = {}
Clause(name, holds) == IF holds THEN {} ELSE {name}
Q4(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], s[i][3], s[i][5]>>]
\* jumps put between two points lie where rounding leaves them
Alike(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : LET t == IF a[i][3] = JUMP THEN tol + 1000 ELSE tol
                                           IN Near(a[i][1], b[i][1], t) /\ Near(a[i][2], b[i][2], t) /\ a[i][3] = b[i][3] /\ a[i][4] = b[i][4]
Tol(fmt) == CASE fmt = "gcode" -> 60 [] fmt = "vp3" -> 510 [] OTHER -> 0
Want(s) == Converted(s.fmt, src, Len(thr))
Got(s) == IF s.fmt = "vp3" THEN Vp3Seen(Q4(s.q)) ELSE Q4(s.q)
Keeps == {"csv", "json", "vp3", "xxx"}          \* formats which store colours as they are
OfPalette == {"pec", "pes", "jef"}
\* runs of one colour; one which is not known is like no other
Runs(a) == LET k == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : i = 1 \/ a[i] # a[i - 1]) IN Len(k)
\* every other stop of a colour is written to JEF as a change to the thread at hand
JefStops(q, t) ==
  LET step(a, x) ==
        IF x[3] = COLORCHANGE THEN [a EXCEPT !.even = FALSE, !.q = Append(@, x), !.thr = @ \o SubSeq(a.rest, 1, MinOf(1, Len(a.rest))), !.rest = SubSeq(@, 2, Len(@))]
        ELSE IF x[3] = STOP THEN IF a.even THEN [a EXCEPT !.even = FALSE, !.q = Append(@, <<x[1], x[2], COLORCHANGE, 0>>), !.thr = Append(@, IF a.thr = << >> THEN 0 ELSE a.thr[Len(a.thr)])]
                                 ELSE [a EXCEPT !.even = TRUE, !.q = Append(@, x)]
        ELSE [a EXCEPT !.q = Append(@, x)]
      w == FoldLeft(step, [even |-> FALSE, q |-> << >>, thr |-> SubSeq(t, 1, MinOf(1, Len(t))), rest |-> SubSeq(t, 2, Len(t))], q)
  IN [q |-> w.q, thr |-> w.thr]
Colors(s) ==
  LET all == [i \in 1..MaxOf(Len(thr), Threads_(s.fmt, src, Len(thr))) |-> IF i <= Len(thr) /\ thr[i] >= 0 THEN thr[i] ELSE -i]      \* not known
      enc == IF s.fmt \in Exact THEN Q4(src) ELSE Q4(Encoded(Case_(s.fmt, src, Len(thr))).out)
      as == CASE s.fmt = "xxx" -> StopAsDup(enc, all, COLORCHANGE)      \* knows no stop: it is a change to the same thread
              [] s.fmt = "jef" -> JefStops(enc, all)
              [] s.fmt \in {"pec", "pes"} -> [q |-> Want(s), thr |-> all]
              [] OTHER -> [q |-> enc, thr |-> all]
      want == SewnColors(as.q, as.thr)
      got == SewnColors(s.q, s.thr)
  IN /\ s.fmt \in Keeps => Len(want) = Len(got) /\ \A i \in DOMAIN want : (want[i] < 0 \/ want[i] = got[i])
     \* of a palette: what was told apart from its neighbour still is
     \* (in JEF, from the thread before it, whether that sews or not)
     /\ s.fmt \in OfPalette => \/ Runs(want) = Runs(got)
                               \/ s.fmt = "jef" /\ Len(SewnBlocks(as.q)) > 1 /\ \E i \in 2..Len(SewnBlocks(as.q)) : SewnBlocks(as.q)[i] # SewnBlocks(as.q)[i - 1] + 1
StepV(s) == IF ~s.ok THEN {"conv.raised"}
            ELSE Clause("conv.stitches", Alike(Sewn(Want(s)), Sewn(Got(s)), Tol(s.fmt)))
                 \cup Clause("conv.commands", Alike(Shape(Want(s)), Shape(Got(s)), Tol(s.fmt)))
                 \cup Clause("conv.colors", Colors(s))
                 \cup Clause("conv.source", s.kept)
Steps == Cases[c].steps
EndV == IF Steps = << >> \/ ~Steps[Len(Steps)].ok THEN {}
        ELSE Clause("conv.kept", SubsequenceOf(Once(Penetrations(Cases[c].plain)), Penetrations(Q4(src)), Cases[c].tol))
Explain(s, v) == ("EXPLAIN" \in DOMAIN IOEnv /\ v # {}) => PrintT(<<pos, s.fmt, "from", src, thr, "want", IF s.ok THEN Want(s) ELSE << >>, "got", s.q, s.thr, v>>)
Convert_ == /\ pos > 0 /\ pos <= Len(Steps)
        /\ LET s == Steps[pos]
               v == StepV(s)
           IN /\ Explain(s, v)
              /\ bad' = bad \cup v
              /\ src' = s.q /\ thr' = s.thr
        /\ pos' = pos + 1 /\ UNCHANGED c
Judge == /\ pos = Len(Steps) + 1
         /\ PrintT(<<"VERDICT", c, bad \cup EndV>>)
         /\ pos' = 0 /\ UNCHANGED <<c, src, thr, bad>>
Done == pos = 0 /\ UNCHANGED vars
Next == Convert_ \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
