------------------------------ MODULE ThreadMC -------------------------------
(* Palette allocation as a process: threads take entries one after the other  *)
(* in any order (PEC), or in sewing order with the entry of the thread before *)
(* barred (JEF); the rules of Threads hold of everything that can come out.   *)
EXTENDS Threads
CONSTANTS N        \* threads in a design
Colors == {0, 16711680, 16711681, 65280, 255, 8421504, 16777215}
Pals == { <<-1, 0, 16711680, 255>>, <<0, 0, 16777215>>, <<16711680, 16711684, 12632256, 65280>>, <<-1, 128>> }
T(rgb, d) == <<rgb, d, << >>, << >>, << >>, << >>, << >> >>
VARIABLES pal, thr, ent, ser
vars == <<pal, thr, ent, ser>>
\* ent: unique allocation so far (thread -> entry); ser: the serial allocation so far
Init == pal \in Pals /\ thr = << >> /\ ent = << >> /\ ser = << >>
Arrive == /\ Len(thr) < N /\ ent = << >> /\ ser = << >>
          /\ \E rgb \in Colors, d \in {<< >>, <<97>>} : thr' = Append(thr, T(rgb, d))
          /\ UNCHANGED <<pal, ent, ser>>
Closest(p, rgb, ok) == {k \in ok : \A j \in ok : Dist(rgb, p[k]) <= Dist(rgb, p[j])}
Given == DOMAIN ent
Take == /\ thr # << >> /\ ser = << >>
        /\ \E t \in Range_(thr) \ Given :
             LET left == Entries(pal) \ {ent[u] : u \in Given}
             IN /\ left # {}
                /\ \E k \in Closest(pal, t[1], left) :
                     ent' = [u \in Given \cup {t} |-> IF u = t THEN k ELSE ent[u]]
        /\ UNCHANGED <<pal, thr, ser>>
Serve == /\ Len(ser) < Len(thr) /\ ent = << >>
         /\ LET i == Len(ser) + 1
                t == thr[i]
                e == Entries(pal)
            IN IF i > 1 /\ thr[i - 1] = t THEN ser' = Append(ser, ser[i - 1])
               ELSE \E k \in Closest(pal, t[1], e) :
                      IF i > 1 /\ ser[i - 1] = k
                      THEN e \ {k} # {} /\ \E j \in Closest(pal, t[1], e \ {k}) : ser' = Append(ser, j)
                      ELSE ser' = Append(ser, k)
         /\ UNCHANGED <<pal, thr, ent>>
Done == UNCHANGED vars
Next == Arrive \/ Take \/ Serve \/ Done
Spec == Init /\ [][Next]_vars
UniqueOk == (thr # << >> /\ Given = Range_(thr)) => Unique(pal, thr, [i \in DOMAIN thr |-> ent[thr[i]]])
SerialOk == (thr # << >> /\ Len(ser) = Len(thr)) => NonRepeat(pal, thr, ser)
\* two entries swapped for ones that are beaten are noticed
Swapped == \A i \in DOMAIN ser : \A k \in Entries(pal) :
             (Len(ser) = Len(thr) /\ i = 1 /\ Beats(thr[1][1], pal[ser[1]], pal[k])) => ~NonRepeat(pal, thr, [ser EXCEPT ![1] = k])
\* text forms: the colour of a text written for a colour is that colour
Forms == \A c \in Colors : /\ TextValue(HexText(c)) = c
                           /\ TextValue([i \in 1..7 |-> LET h == HexText(c)[i] IN IF h \in 97..102 THEN h - 32 ELSE h]) = c
                           /\ TextValue(HexText(c) \o <<48, 70>>) = c
Metric == \A c, d \in Colors : Dist(c, d) = Dist(d, c) /\ (Dist(c, d) = 0 <=> c = d) /\ Dist(c, d) >= 0
Distinct == \A i, j \in DOMAIN Names : i # j => Names[i][1] # Names[j][1]
ASSUME Forms /\ Metric /\ Distinct
=============================================================================
