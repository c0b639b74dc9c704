------------------------------ MODULE RasterMC ------------------------------
(* The drawing machine over every line of a small grid: it arrives, draws one   *)
(* pixel per step, each a nearest one, and never leaves the lines' box.          *)
EXTENDS Raster
CONSTANT N
VARIABLES a, b, w
vars == <<a, b, w>>
P == {<<x, y>> : x \in (-N)..N, y \in (-N)..N}
Init == a \in P /\ b \in P /\ w = Begin(a, b)
Step == ~Arrived(w) /\ w' = Move(w) /\ UNCHANGED <<a, b>>
End_ == Arrived(w) /\ UNCHANGED vars
Next == Step \/ End_
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
NearestDrawn == \A i \in DOMAIN w.drawn : w.drawn[i] \in Nearest(a, b, i - 1)
OneEach == Len(w.drawn) <= Steps(a, b) + 1 /\ (Arrived(w) => Len(w.drawn) = Steps(a, b) + 1 /\ w.at = b)
Joined == \A i \in 2..Len(w.drawn) : AbsR(w.drawn[i][1] - w.drawn[i - 1][1]) <= 1 /\ AbsR(w.drawn[i][2] - w.drawn[i - 1][2]) <= 1
BothWays == Line(a, b) = Line(b, a)
Inside == \A p \in Line(a, b) : \A k \in {1, 2} : \/ (a[k] <= p[k] /\ p[k] <= b[k]) \/ (b[k] <= p[k] /\ p[k] <= a[k])
Arrives == <>Arrived(w)
=============================================================================
