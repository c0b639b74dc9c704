-------------------------------- MODULE Files --------------------------------
(* A directory of design files and the operations by file name.  A name's      *)
(* extension, whatever its letter case, picks the handler; a type that cannot  *)
(* be written is refused before anything is written.                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Registry
DOT == 46  SLASH == 47
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Base(n) == LET k == {i \in DOMAIN n : n[i] = SLASH} IN IF k = {} THEN n ELSE SubSeq(n, Max(k) + 1, Len(n))
\* what follows the last dot; dots that begin a name begin no extension
Extension(n) == LET b == Base(n)
                    k == {i \in DOMAIN b : b[i] = DOT /\ \E j \in 1..(i - 1) : b[j] # DOT}
                IN IF k = {} THEN << >> ELSE SubSeq(b, Max(k) + 1, Len(b))
NONE == "none"
Kind(n) == LET e == Lower(Extension(n))
               k == {i \in DOMAIN Registry : Registry[i].ext = e}
           IN IF k = {} THEN [fmt |-> NONE, reads |-> FALSE, writes |-> FALSE]
              ELSE LET z == Registry[CHOOSE i \in k : TRUE] IN [fmt |-> z.fmt, reads |-> z.reads, writes |-> z.writes]
Has(dir, n) == n \in DOMAIN dir
Put(dir, n, v) == [m \in (DOMAIN dir) \cup {n} |-> IF m = n THEN v ELSE dir[m]]
\* outcome of an operation: "ok", "nothing" (no reader: no design), "refused" (an I/O error); the handler; the directory after
Out(o, h, d) == [outcome |-> o, handler |-> h, dir |-> d]
DoWrite(dir, n, v) == IF Kind(n).writes THEN Out("ok", Kind(n).fmt, Put(dir, n, v)) ELSE Out("refused", NONE, dir)
DoRead(dir, n) == IF ~Kind(n).reads THEN Out("nothing", NONE, dir)
                  ELSE IF ~Has(dir, n) THEN Out("refused", NONE, dir) ELSE Out("ok", Kind(n).fmt, dir)
\* v: what writing the design read from n makes
DoConvert(dir, n, m, v) == LET r == DoRead(dir, n) IN IF r.outcome # "ok" THEN r ELSE DoWrite(dir, m, v)
\* by a named function the extension plays no part
DoWriteAs(dir, n, v) == Out("ok", NONE, Put(dir, n, v))
DoReadAs(dir, n) == IF Has(dir, n) THEN Out("ok", NONE, dir) ELSE Out("refused", NONE, dir)
=============================================================================
