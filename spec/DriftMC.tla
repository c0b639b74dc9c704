-------------------------------- MODULE DriftMC ------------------------------
(* Rounding in the record writers: each record moves the needle by the       *)
(* rounded displacement from where the needle really is, so the error never  *)
(* grows whatever the design.                                                *)
EXTENDS Formats
CONSTANTS N
Fmts == {"dst", "exp", "u01", "xxx", "tbf", "jef", "pec"}
Opt == [trimat |-> 3, trims |-> FALSE, keepstop |-> FALSE]
Coords == {0, 250, 499, 500, 501, 750, 1000, 1500, 2500, -250, -500, -501, -1500, -2500}
VARIABLES fmt, w, x, y, n
vars == <<fmt, w, x, y, n>>
Init == fmt \in Fmts /\ w = WInit(fmt) /\ x = 0 /\ y = 0 /\ n = 0
Move_ == \E nx \in Coords, f \in {STITCH, JUMP} : \E ny \in {0, 500, -1500} :
          /\ n < N /\ n' = n + 1 /\ x' = nx /\ y' = ny
          /\ w' = [WStep(fmt, Opt, w, <<nx, ny, f, 0>>) EXCEPT !.out = << >>]
          /\ UNCHANGED fmt
Control == \E f \in {TRIM, COLORCHANGE, STOP} :
          /\ n < N /\ n' = n + 1
          /\ w' = [WStep(fmt, Opt, w, <<x, y, f, 0>>) EXCEPT !.out = << >>]
          /\ UNCHANGED <<fmt, x, y>>
Done == n = N /\ UNCHANGED vars
Next == Move_ \/ Control \/ Done
Spec == Init /\ [][Next]_vars
Close == Abs(1000 * w.x - x) <= 500 /\ Abs(1000 * w.y - y) <= 500
\* the needle never depends on how it got there by more than that either
View == <<fmt, w, x, y, n>>
=============================================================================
