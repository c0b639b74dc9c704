------------------------------- MODULE Objects -------------------------------
(* Designs as objects made of cells (commands, threads, texts).  Deriving or    *)
(* copying makes an object of fresh cells; writing, encoding and viewing make   *)
(* no change; a modification changes cells of one object.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* cells: cell -> value;  objs: object -> list of its cells
Fresh(cells) == 1 + Cardinality(DOMAIN cells)
Derived(cells, objs, o, vals) ==
  LET f == Fresh(cells)
      n == Len(vals)
  IN [cells |-> [k \in (DOMAIN cells) \cup (f..((f + n) - 1)) |-> IF k < f THEN cells[k] ELSE vals[(k - f) + 1]],
      objs |-> [p \in (DOMAIN objs) \cup {o} |-> IF p = o THEN [i \in 1..n |-> (f + i) - 1] ELSE objs[p]]]
Value(cells, objs, o) == [i \in DOMAIN objs[o] |-> cells[objs[o][i]]]
CellsOf(objs, o) == {objs[o][i] : i \in DOMAIN objs[o]}
Changed(cells, k, v) == [cells EXCEPT ![k] = v]
=============================================================================
