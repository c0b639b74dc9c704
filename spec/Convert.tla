------------------------------- MODULE Convert -------------------------------
(* Conversion as a transition: the design read from one file is encoded under *)
(* the defaults of another format, written, and read back from there.         *)
(* A design is a sequence of <<x, y, flag, needle+1>>.                        *)
EXTENDS Held

Exact == {"csv", "json"}             \* formats of whole designs, written without encoding
NoTrims == [trimat |-> 3, trims |-> FALSE, keepstop |-> TRUE]
After_(fmt) ==                       \* what its reader makes of jumps by default
  CASE fmt = "dst" -> [kind |-> "trim", cnt |-> 3, dist |-> -1, clip |-> TRUE]
    [] fmt = "jef" -> [kind |-> "trim", cnt |-> 0, dist |-> 30000, clip |-> TRUE]
    [] OTHER -> [kind |-> "none", cnt |-> 0, dist |-> -1, clip |-> FALSE]
Case_(fmt, src, n) == [kind |-> "e", fmt |-> IF fmt = "pes" THEN "pec" ELSE fmt, efmt |-> fmt, pipe |-> TRUE, o |-> NoTrims, post |-> After_(fmt),
                       src |-> src, nthr |-> n, over |-> [k \in {} |-> 0]]
\* four bytes of a command to what the encoder wants to know
Source(q) == [i \in DOMAIN q |-> <<q[i][1], q[i][2], q[i][3], 0, q[i][4], 0>>]
\* src: commands with all their attributes; n: how many threads come with them
Converted(fmt, src, n) ==
  IF fmt \in Exact THEN [i \in DOMAIN src |-> <<src[i][1], src[i][2], src[i][3], src[i][5]>>]
  ELSE LET C == Case_(fmt, src, n) IN Posted(C, WrittenDesign(C), << >>).q
\* how many threads the encoder hands to the writer
Threads_(fmt, src, n) == IF fmt \in Exact THEN n ELSE Len(Encoded(Case_(fmt, src, n)).threads)

(* --- what no conversion may lose ------------------------------------------ *)
Penetrations(q) == LET k == Filter(q, LAMBDA s : s[3] = STITCH) IN [i \in DOMAIN k |-> <<k[i][1], k[i][2]>>]
\* a is found in b, in order, each within tol
SubsequenceOf(a, b, tol) ==
  Len(a) = FoldLeft(LAMBDA n, p : IF n < Len(a) /\ Near(a[n + 1][1], p[1], tol) /\ Near(a[n + 1][2], p[2], tol) THEN n + 1 ELSE n, 0, b)
\* sewing the same point twice running is sewing it once
Once(p) == LET k == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : i = 1 \/ p[i] # p[i - 1]) IN [i \in DOMAIN k |-> p[k[i]]]
(* --- the colours of what is sewn ------------------------------------------ *)
\* the numbers of the blocks between changes in which something is sewn; thr: colours: what each run of sewing between changes is sewn in
SewnBlocks(q) ==
  LET step(a, s) ==
        IF s[3] \in Sews THEN [a EXCEPT !.sewn = TRUE, !.out = IF a.k \in {a.out[i] : i \in DOMAIN a.out} THEN @ ELSE Append(@, a.k)]
        ELSE IF s[3] = COLORCHANGE \/ (a.sewn /\ s[3] \in {COLORBREAK, NEEDLESET}) THEN [a EXCEPT !.k = @ + 1] ELSE a
      w == FoldLeft(step, [k |-> 1, sewn |-> FALSE, out |-> << >>], q)
  IN w.out
SewnColors(q, thr) == LET k == SewnBlocks(q) IN [i \in DOMAIN k |-> IF k[i] <= Len(thr) THEN thr[k[i]] ELSE -1]
=============================================================================
