------------------------------- MODULE Raster -------------------------------
(* Lines on a grid of pixels.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
AbsR(v) == IF v < 0 THEN -v ELSE v
SgnR(v) == IF v < 0 THEN -1 ELSE 1
MaxR(a, b) == IF a > b THEN a ELSE b
Steps(a, b) == MaxR(AbsR(b[1] - a[1]), AbsR(b[2] - a[2]))
\* the pixels of the i-th step of the line from a to b that are nearest to it: one, or two
\* where the line passes half way between them
Nearest(a, b, i) ==
  LET n == Steps(a, b)
      along == IF AbsR(b[1] - a[1]) > AbsR(b[2] - a[2]) THEN 1 ELSE 2
      off == AbsR(b[3 - along] - a[3 - along]) * i
      m == a[along] + SgnR(b[along] - a[along]) * i
      s == SgnR(b[3 - along] - a[3 - along])
      f == IF n = 0 THEN 0 ELSE (2 * off + n) \div (2 * n)
      fs == IF n > 0 /\ (2 * off + n) % (2 * n) = 0 THEN {f - 1, f} ELSE {f}
      pix(k) == IF along = 1 THEN <<m, a[2] + s * k>> ELSE <<a[1] + s * k, m>>
  IN {pix(k) : k \in fs}
Line(a, b) == UNION {Nearest(a, b, i) : i \in 0..Steps(a, b)}
Around(p, r) == {<<p[1] + i, p[2] + j>> : i \in (-r)..r, j \in (-r)..r}
Thick(a, b, r) == UNION {Around(p, r) : p \in Line(a, b)}

(* --- the drawing machine: integers only, one pixel per step ---------------- *)
Begin(a, b) ==
  LET dx == AbsR(b[1] - a[1])
      dy == AbsR(b[2] - a[2])
  IN [at |-> a, to |-> b, sx |-> SgnR(b[1] - a[1]), sy |-> SgnR(b[2] - a[2]), dx |-> 2 * dx, dy |-> 2 * dy,
      flat |-> dx > dy, fr |-> IF dx > dy THEN 2 * dy - dx ELSE 2 * dx - dy, drawn |-> <<a>>]
Arrived(w) == IF w.flat THEN w.at[1] = w.to[1] ELSE w.at[2] = w.to[2]
Move(w) ==
  LET big == IF w.flat THEN w.dx ELSE w.dy
      small == IF w.flat THEN w.dy ELSE w.dx
      up == w.fr >= 0
      at == IF w.flat THEN <<w.at[1] + w.sx, IF up THEN w.at[2] + w.sy ELSE w.at[2]>>
            ELSE <<IF up THEN w.at[1] + w.sx ELSE w.at[1], w.at[2] + w.sy>>
  IN [w EXCEPT !.at = at, !.fr = @ - (IF up THEN big ELSE 0) + small, !.drawn = Append(@, at)]
=============================================================================
