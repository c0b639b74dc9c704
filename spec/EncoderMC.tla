------------------------------ MODULE EncoderMC ------------------------------
(* Exhaustive check of the encoder specification: every source sequence of   *)
(* up to N commands over a small alphabet, under every setting of a small    *)
(* set, against statements that do not mention how encoding works.           *)
EXTENDS Encoder
CONSTANTS Mode, N

K(f, x, y) == <<1000 * x, 1000 * y, f, 0, 0, 0>>
KA(f, t, n, o) == <<0, 0, f, t, n, o>>
Alphabet ==
  CASE Mode = "core"    -> {K(STITCH, 5, 3), K(STITCH, -21, 0), K(JUMP, 14, -4), K(TRIM, 0, 0), K(COLORCHANGE, 0, 0),
                            K(STITCHBREAK, 0, 0), K(STOP, 0, 0), K(END, 0, 0)}
    [] Mode = "long"    -> {K(STITCH, 0, 0), K(STITCH, 25, 11), K(SEWTO, -10, 31), K(NEEDLEAT, 7, -20), K(JUMP, -40, 5),
                            K(STITCHBREAK, 0, 0), K(SEQEJECT, 3, 30)}
    [] Mode = "thread"  -> {K(STITCH, 1, 0), K(COLORBREAK, 0, 0), K(COLORCHANGE, 0, 0), KA(COLORCHANGE, 3, 0, 0),
                            KA(NEEDLESET, 0, 4, 0), KA(SETCHANGESEQ, 2, 0, 2), K(TIEON, 0, 0), K(END, 0, 0)}
    [] Mode = "control" -> {K(STITCH, 5, 0), K(SEQEJECT, 6, 0), K(SEQMODE, 0, 0), K(TRIM, 0, 0), K(JUMP, 30, 2),
                            K(SEQBREAK, 0, 0), K(FRAMEEJECT, 2, 2), K(COLORCHANGE, 0, 0)}
    [] Mode = "option"  -> {K(STITCH, 5, 0), K(STITCH, 9, 12), K(TRIM, 0, 0), K(TIEONSMALL, 0, 0), K(TIEOFFSMALL, 0, 0),
                            K(TIEONNONE, 0, 0), K(OPTEXPLICIT, 0, 0), K(COLORBREAK, 0, 0), K(OPTMAXSTITCH, 7, 0)}
    [] Mode = "matrix"  -> {K(STITCH, 10, 5), K(JUMP, 5, -5), K(MTRANSLATE, 5, 0), <<0, ONE, MROTATE, 0, 0, 0>>,
                            <<2 * ONE, ONE, MSCALE, 0, 0, 0>>, <<-ONE, ONE, MSCALEORIGIN, 0, 0, 0>>,
                            <<6000, 8000, MROTATEORIGIN, 0, 0, 0>>, K(MRESET, 0, 0)}

Base == [ms |-> 10000, mj |-> 10000, full |-> FALSE, round |-> FALSE, needles |-> 3, tcc |-> COLORCHANGE,
         seq |-> SEQJUMP, speeds |-> TRUE, explicit |-> FALSE, tieon |-> FALSE, tieoff |-> FALSE, long |-> LONGJUMP,
         translate |-> <<0, 0>>, scale |-> <<ONE, ONE>>, rot |-> <<ONE, 0>>]
Configs ==
  CASE Mode = "core"    -> {Base, [Base EXCEPT !.full = TRUE, !.explicit = TRUE, !.round = TRUE]}
    [] Mode = "long"    -> {Base, [Base EXCEPT !.long = LONGSEW, !.ms = 12500, !.mj = 7000, !.full = TRUE],
                            [Base EXCEPT !.seq = SEQUTIL]}
    [] Mode = "thread"  -> {Base, [Base EXCEPT !.tcc = NEEDLESET], [Base EXCEPT !.tcc = STOP, !.needles = 1]}
    [] Mode = "control" -> {[Base EXCEPT !.seq = s] : s \in {SEQUTIL, SEQJUMP, SEQREMOVE}}
    [] Mode = "option"  -> {Base, [Base EXCEPT !.tieon = TRUE, !.tieoff = TRUE, !.ms = 4000, !.mj = 4000]}
    [] Mode = "matrix"  -> {Base, [Base EXCEPT !.translate = <<3000, 0>>, !.rot = <<0, ONE>>]}
Threads == <<1, 2, 3>>

VARIABLES cfg, src, pos, st
vars == <<cfg, src, pos, st>>

\* first the source is composed, then it is encoded
Init == cfg \in Configs /\ src = << >> /\ pos = -1 /\ st = [out |-> << >>, done |-> FALSE]
Compose1 == pos = -1 /\ Len(src) < N /\ \E k \in Alphabet : src' = Append(src, k)
            /\ UNCHANGED <<cfg, pos, st>>
Begin == pos = -1 /\ pos' = 1 /\ st' = EncInit(cfg, src, Threads) /\ UNCHANGED <<cfg, src>>

Running == pos >= 1 /\ pos <= Len(src) /\ ~st.done
Do == /\ st' = EncStep(cfg, src, Threads, pos, st)
      /\ pos' = pos + 1
      /\ UNCHANGED <<cfg, src>>
Here1 == src[pos][3]
Start     == Running /\ Here1 \in Sewing /\ st.trimmed /\ Do
Sew       == Running /\ Here1 \in Sewing /\ ~st.trimmed /\ Do
Travel1   == Running /\ Here1 \in {JUMP, STITCHBREAK, FRAMEEJECT} /\ Do
Control   == Running /\ Here1 \in {TRIM, SEQBREAK, STOP, SEQMODE, TIEON, END} /\ Do
Change    == Running /\ Here1 \in {COLORCHANGE, COLORBREAK, NEEDLESET, SETCHANGESEQ} /\ Do
Option    == Running /\ Here1 \in 192 .. 223 /\ Do
Finish    == /\ pos >= 1 /\ (pos > Len(src) \/ st.done)
             /\ st' = EncFinish(st) /\ pos' = 0 /\ UNCHANGED <<cfg, src>>
Halt      == pos = 0 /\ UNCHANGED vars
Next == Compose1 \/ Begin \/ Start \/ Sew \/ Travel1 \/ Control \/ Change \/ Option \/ Finish \/ Halt
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Out == st.out
Final == pos = 0
UpTo == LET e == {i \in DOMAIN src : src[i][3] = END} IN IF e = {} THEN Len(src) ELSE Min(e) - 1
NoMatrix == cfg.translate = <<0, 0>> /\ cfg.rot = <<ONE, 0>> /\ \A i \in DOMAIN src : src[i][3] \notin 192 .. 197
Cnt(q, F) == Cardinality({i \in DOMAIN q : q[i][3] \in F})
P2(s) == <<s[1], s[2]>>
SrcSew == SelectSeq([i \in 1 .. UpTo |-> src[i]], LAMBDA s : s[3] \in {STITCH, SEWTO, NEEDLEAT})
OutSew == SelectSeq(Out, LAMBDA s : s[3] = STITCH)
RECURSIVE IsSubseq(_, _)
IsSubseq(a, b) == IF a = << >> THEN TRUE
                  ELSE IF b = << >> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN IsSubseq(Tail(a), Tail(b)) ELSE IsSubseq(a, Tail(b))
Pts(q) == [i \in DOMAIN q |-> P2(q[i])]
Ties == cfg.tieon \/ cfg.tieoff \/ \E i \in DOMAIN src : src[i][3] \in {TIEONSMALL, TIEOFFSMALL}

\* P01: same penetrations, same order; only locks, sew-to subdivisions and sequins add any
KeepsStitches ==
  Final /\ NoMatrix =>
    /\ IsSubseq(Pts(SrcSew), Pts(OutSew))
    /\ (~Ties /\ cfg.long = LONGJUMP /\ Cnt(src, {SEQEJECT, SEWTO}) = 0) => Pts(OutSew) = Pts(SrcSew)
\* P01: the first stitch of a run is reached by jumping when it is out of range
RunsStartInRange ==
  Final /\ cfg.full => \A i \in DOMAIN Out :
     (Out[i][3] = STITCH /\ (i = 1 \/ Out[i - 1][3] \in {TRIM, COLORCHANGE, STOP})) =>
        P2(Out[i]) = (IF i = 1 THEN <<0, 0>> ELSE P2(Out[i - 1]))
\* P02
LimitsHold ==
  (Final /\ ~\E i \in DOMAIN src : src[i][3] \in {OPTMAXSTITCH, OPTMAXJUMP}) =>
    \A i \in DOMAIN Out :
      LET px == IF i = 1 THEN 0 ELSE Out[i - 1][1]
          py == IF i = 1 THEN 0 ELSE Out[i - 1][2]
      IN Abs(Out[i][1] - px) <= cfg.ms + 1 /\ Abs(Out[i][2] - py) <= cfg.ms + 1
\* P03
ThreadPerBlock ==
  Final /\ st.tcc = COLORCHANGE =>
    /\ Len(st.threads) = (IF st.ord = -1 THEN 0 ELSE 1 + Cnt(Out, {COLORCHANGE}))
    /\ (Cnt(OutSew, {STITCH}) > 0 => st.ord >= 0)
ExplicitChangesKept ==
  LET n == Cnt(SubSeq(src, 1, UpTo), {COLORCHANGE, NEEDLESET})
  IN Final /\ st.tcc = COLORCHANGE => /\ Cnt(Out, {COLORCHANGE}) + 1 >= n
                                      /\ Cnt(Out, {COLORCHANGE}) <= n + Cnt(src, {COLORBREAK})
NoTrailingBreak ==
  (Final /\ Cnt(SubSeq(src, 1, UpTo), {COLORCHANGE, NEEDLESET, SETCHANGESEQ}) = 0 /\ st.tcc = COLORCHANGE /\ Cnt(src, {TIEON}) = 0) =>
     \A i \in DOMAIN Out : Out[i][3] = COLORCHANGE =>
        /\ \E j \in 1 .. i : Out[j][3] \in {STITCH, SEQEJECT, JUMP}
        /\ \E j \in i .. Len(Out) : Out[j][3] \in {STITCH, SEQEJECT, JUMP}
\* P04
LowLevelOnly == Final => \A i \in DOMAIN Out : Out[i][3] \in LowLevel
OneEnd == Final => Cnt(Out, {END}) = 1 /\ Out[Len(Out)][3] = END
TrimsMatter ==
  Final => \A i \in DOMAIN Out : Out[i][3] = TRIM =>
     LET prev == {j \in 1 .. (i - 1) : Out[j][3] \in {TRIM, STOP, COLORCHANGE, NEEDLESET}}
         p == IF prev = {} THEN 0 ELSE Max(prev)
     IN \E j \in (p + 1) .. (i - 1) : Out[j][3] = STITCH
SequinDiscipline ==
  LET r == FoldLeft(LAMBDA a, s : IF s[3] = SEQMODE THEN [a EXCEPT !.on = ~@]
                     ELSE IF (s[3] = SEQEJECT /\ ~a.on) \/ (s[3] \in {JUMP, TRIM} /\ a.on) THEN [a EXCEPT !.ok = FALSE]
                     ELSE a, [on |-> FALSE, ok |-> TRUE], Out)
  IN Final => r.ok /\ (r.on <=> st.seqmode)
\* P05: without a lock option in force, no lock; with one, four stitches per lock
LocksOnlyWhenAsked == Final /\ ~Ties /\ cfg.long = LONGJUMP /\ Cnt(src, {SEQEJECT, SEWTO}) = 0 =>
                         Len(OutSew) = Len(SrcSew)
LocksAreFour == Final /\ cfg.long = LONGJUMP /\ Cnt(src, {SEQEJECT, SEWTO}) = 0 => (Len(OutSew) - Len(SrcSew)) % 4 = 0
\* P07: a matrix command never moves what is already encoded; reset restores
MatrixOnlyForward == [][pos > 0 /\ pos <= Len(src) /\ src[pos][3] \in 192 .. 197 => st'.out = st.out /\ st'.nx = st.nx]_vars
NeedleFixed ==
  [][pos > 0 /\ pos <= Len(src) /\ src[pos][3] \in {MROTATE, MSCALE} =>
       LET q == PreImage(st.m, st.nx, st.ny)
           a == ApplyM(st'.m, q[1], q[2])
       IN Near(a[1], st.nx, 5) /\ Near(a[2], st.ny, 5)]_vars
=============================================================================
