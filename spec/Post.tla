-------------------------------- MODULE Post ---------------------------------
(* Reinterpretations of a loaded design.  Commands are tuples whose first    *)
(* three entries are x, y, flag.                                             *)
EXTENDS Cmds

Sews == {STITCH, SEWTO, NEEDLEAT}
At(q, k) == IF k = 0 THEN <<0, 0>> ELSE <<q[k][1], q[k][2]>>
Sum2(d) == FoldLeft(LAMBDA a, v : <<a[1] + v[1], a[2] + v[2]>>, <<0, 0>>, d)

\* the same command's place as another command, without attributes
As(c, f) == [i \in DOMAIN c |-> IF i = 3 THEN f ELSE IF i > 3 THEN 0 ELSE c[i]]
Cnt(q, F) == Cardinality({i \in DOMAIN q : q[i][3] \in F})

(* --- a run of jumps becomes a trim iff it reaches the count or distance ---*)
\* q[a..b] is a maximal run of jumps; p: where it starts
RunTrims(q, a, b, p, cnt, dist) ==
  \E k \in a..b : \/ k - a + 1 = cnt
                  \/ dist >= 0 /\ (Abs(q[k][1] - p[1]) > dist \/ Abs(q[k][2] - p[2]) > dist)
RunLeft(q, a, b, p, clip) == \* first jump of the run that is kept
  LET z == {k \in a..b : q[k][1] = p[1] /\ q[k][2] = p[2]}
  IN IF ~clip \/ z = {} THEN a ELSE Max(z) + 1
RunEnd(q, a) == Max({k \in a..Len(q) : \A j \in a..k : q[j][3] = JUMP})

RECURSIVE Interp(_, _, _, _, _, _, _)
Interp(q, i, trimmed, cnt, dist, clip, sfx) ==
  IF i > Len(q) THEN << >>
  ELSE IF q[i][3] = JUMP THEN
    LET b == RunEnd(q, i)
        p == At(q, i - 1)
        t == ~trimmed /\ RunTrims(q, i, b, p, cnt, dist)
        l == RunLeft(q, i, b, p, clip)
    IN (IF t THEN << <<p[1], p[2], TRIM>> \o sfx >> ELSE << >>) \o SubSeq(q, l, b)
       \o Interp(q, b + 1, trimmed \/ t, cnt, dist, clip, sfx)
  ELSE <<q[i]>> \o Interp(q, i + 1,
         IF q[i][3] \in {STITCH, SEQEJECT} THEN FALSE
         ELSE IF q[i][3] \in {COLORCHANGE, NEEDLESET, TRIM} THEN TRUE ELSE trimmed, cnt, dist, clip, sfx)
\* cnt = 0 and dist = -1 mean "not asked for"; sfx fills the tuple up
InterpTrims(q, cnt, dist, clip, sfx) == Interp(q, 1, TRUE, cnt, dist, clip, sfx)

(* --- a change between two equal successive threads is a stop -------------*)
Changes == {COLORCHANGE, COLORBREAK, NEEDLESET}
\* w: out, thr (threads kept), rest (threads not reached), sewn
DupStep(w, c) ==
  IF c[3] \in Sews THEN [w EXCEPT !.out = Append(@, c), !.sewn = TRUE]
  ELSE IF c[3] \notin Changes \/ (~w.sewn /\ c[3] # COLORCHANGE) \/ w.rest = << >>
       THEN [w EXCEPT !.out = Append(@, c)]
  ELSE IF w.thr # << >> /\ w.thr[Len(w.thr)] = w.rest[1]
       THEN [w EXCEPT !.out = Append(@, As(c, STOP)), !.rest = Tail(@)]
  ELSE [w EXCEPT !.out = Append(@, c), !.thr = Append(@, w.rest[1]), !.rest = Tail(@)]
DupAsStop(q, thr) ==
  LET w == FoldLeft(DupStep, [out |-> << >>, thr |-> SubSeq(thr, 1, MinOf(1, Len(thr))),
                              rest |-> SubSeq(thr, 2, Len(thr)), sewn |-> FALSE], q)
  IN [q |-> w.out, thr |-> w.thr \o w.rest]
(* --- and the other way: a stop becomes a change to the same thread ------- *)
StopStep(cmd, w, c) ==
  IF c[3] \in Sews THEN [w EXCEPT !.out = Append(@, c), !.sewn = TRUE]
  ELSE IF c[3] = COLORCHANGE \/ (w.sewn /\ c[3] \in Changes)
  THEN IF w.rest = << >> THEN [w EXCEPT !.out = Append(@, c), !.none = TRUE]
       ELSE [w EXCEPT !.out = Append(@, c), !.thr = Append(@, w.rest[1]), !.rest = Tail(@)]
  ELSE IF c[3] = STOP /\ ~w.none /\ w.thr # << >>
  THEN [w EXCEPT !.out = Append(@, As(c, cmd)), !.thr = Append(@, w.thr[Len(w.thr)])]
  ELSE [w EXCEPT !.out = Append(@, c)]
StopAsDup(q, thr, cmd) ==
  LET w == FoldLeft(LAMBDA a, c : StopStep(cmd, a, c),
                    [out |-> << >>, thr |-> SubSeq(thr, 1, MinOf(1, Len(thr))),
                     rest |-> SubSeq(thr, 2, Len(thr)), none |-> FALSE, sewn |-> FALSE], q)
  IN [q |-> w.out, thr |-> w.thr \o w.rest]

(* --- derived patterns ---------------------------------------------------- *)
\* every run of jumps is one stitch break
RECURSIVE MergeJumpsAt(_, _)
MergeJumpsAt(q, i) ==
  IF i > Len(q) THEN << >>
  ELSE IF q[i][3] = JUMP THEN << <<0, 0, STITCHBREAK, 0, 0, 0>> >> \o MergeJumpsAt(q, RunEnd(q, i) + 1)
  ELSE <<q[i]>> \o MergeJumpsAt(q, i + 1)
MergeJumps(q) == MergeJumpsAt(q, 1)
\* runs of jumps after sewing become their last jump, after a trim when there are n or more
RECURSIVE JumpTrimsAt(_, _, _, _)
JumpTrimsAt(q, i, trimmed, n) ==
  IF i > Len(q) THEN << >>
  ELSE IF q[i][3] = JUMP /\ ~trimmed THEN
    LET b == RunEnd(q, i)
        t == b - i + 1 >= n
        p == At(q, i - 1)
    IN (IF t THEN << <<p[1], p[2], TRIM, 0, 0, 0>> >> ELSE << >>) \o <<q[b]>> \o JumpTrimsAt(q, b + 1, t, n)
  ELSE <<q[i]>> \o JumpTrimsAt(q, i + 1,
         IF q[i][3] \in {STITCH, SEQEJECT} THEN FALSE
         ELSE IF q[i][3] \in {COLORCHANGE, NEEDLESET, TRIM} THEN TRUE ELSE trimmed, n)
JumpTrims(q, n) == JumpTrimsAt(q, 1, TRUE, n)
\* jumps-stop-jumps, or jumps-stop at the end, is a frame eject where the stop is
RECURSIVE FrameEjectsAt(_, _)
FrameEjectsAt(q, i) ==
  IF i > Len(q) THEN << >>
  ELSE IF q[i][3] # JUMP THEN <<q[i]>> \o FrameEjectsAt(q, i + 1)
  ELSE LET b == RunEnd(q, i)
       IN IF b = Len(q) \/ q[b + 1][3] # STOP THEN SubSeq(q, i, b) \o FrameEjectsAt(q, b + 1)
          ELSE LET e == <<q[b + 1][1], q[b + 1][2], FRAMEEJECT, 0, 0, 0>>
               IN IF b + 1 = Len(q) \/ q[b + 2][3] = END THEN <<e>> \o FrameEjectsAt(q, b + 2)
                  ELSE IF q[b + 2][3] = JUMP THEN <<e>> \o FrameEjectsAt(q, RunEnd(q, b + 2) + 1)
                  ELSE SubSeq(q, i, b + 1) \o FrameEjectsAt(q, b + 2)
FrameEjects(q) == FrameEjectsAt(q, 1)

(* --- block views: <<first index, last index, k>>, k-th thread -------------*)
ColorBlocks(q) ==
  LET step(w, i) ==
        LET f == q[i][3]
        IN IF f = COLORBREAK
             THEN IF w.s = i THEN [w EXCEPT !.s = i + 1]
                  ELSE [w EXCEPT !.s = i + 1, !.k = @ + 1, !.b = Append(@, <<w.s, i - 1, w.k>>)]
           ELSE IF f = COLORCHANGE
             THEN [w EXCEPT !.s = i + 1, !.k = @ + 1, !.b = Append(@, <<w.s, i, w.k>>)]
           ELSE IF f = NEEDLESET /\ w.s # i
             THEN [w EXCEPT !.s = i, !.k = @ + 1, !.b = Append(@, <<w.s, i - 1, w.k>>)]
           ELSE w
      w == FoldLeft(step, [s |-> 1, k |-> 1, b |-> << >>], [i \in DOMAIN q |-> i])
  IN IF w.s <= Len(q) THEN Append(w.b, <<w.s, Len(q), w.k>>) ELSE w.b
\* maximal runs of stitches within a colour block
StitchBlocks(q) ==
  LET within(out, w) ==           \* the runs of one colour block, put behind out
        LET g == FoldLeft(LAMBDA a, i : IF q[i][3] # STITCH THEN [a EXCEPT !.open = FALSE]
                                        ELSE IF a.open THEN [a EXCEPT !.b[Len(a.b)][2] = i]
                                        ELSE [open |-> TRUE, b |-> Append(a.b, <<i, i, w[3]>>)],
                          [open |-> FALSE, b |-> out], [j \in 1..(w[2] - w[1] + 1) |-> w[1] + j - 1])
        IN g.b
  IN FoldLeft(within, << >>, ColorBlocks(q))
CommandBlocks(q) ==
  LET start(i) == i = 1 \/ q[i - 1][3] # q[i][3]
      s == SelectSeq([i \in DOMAIN q |-> i], start)
  IN [n \in DOMAIN s |-> <<s[n], IF n = Len(s) THEN Len(q) ELSE s[n + 1] - 1>>]
\* the stable form: every stitch block, after a colour break when its thread is
\* another one, after a sequence break when it is the same
Stable(q) ==
  LET sb == StitchBlocks(q)
      one(n) == << <<0, 0, IF n = 1 \/ sb[n][3] # sb[n - 1][3] THEN COLORBREAK ELSE SEQBREAK, 0, 0, 0>> >>
                \o SubSeq(q, sb[n][1], sb[n][2])
      ks == SelectSeq([n \in DOMAIN sb |-> n], LAMBDA n : n = 1 \/ sb[n][3] # sb[n - 1][3])
  IN [q |-> FoldLeft(LAMBDA a, n : a \o one(n), << >>, [n \in DOMAIN sb |-> n]),
      thr |-> [i \in DOMAIN ks |-> sb[ks[i]][3]]]
=============================================================================
