------------------------------- MODULE Encoder -------------------------------
(* The transcoder: a design of core and middle-level commands becomes a      *)
(* low-level command list within a machine's limits.  One operator per       *)
(* source command (EncStep); the state record is the machine's whole memory. *)
EXTENDS Cmds

(* cfg: settings.  ms, mj: limits in milli (INF: none); full, round: BOOLEAN;*)
(* needles: count; tcc: change command; seq: sequin option; speeds, explicit,*)
(* tieon, tieoff: BOOLEAN; long: option; translate <<tx,ty>> milli, scale    *)
(* <<sx,sy>> and rot <<cos,sin>> in 1/10000.                                 *)
ONE == 10000
Identity == <<ONE, 0, 0, ONE, 0, 0>>
\* 2x3 matrices <<a,b,c,d,e,f>>:  x' = a x + c y + e ; y' = b x + d y + f
ApplyM(m, x, y) ==
  << MulDiv(x, m[1], ONE) + MulDiv(y, m[3], ONE) + m[5],
     MulDiv(x, m[2], ONE) + MulDiv(y, m[4], ONE) + m[6] >>
\* the new transform n acts on the point first, then the transform m in force
Compose(m, n) ==
  LET q(a, b) == MulDiv(a, b, ONE)
      t == ApplyM(m, n[5], n[6])
  IN << q(n[1], m[1]) + q(n[2], m[3]), q(n[1], m[2]) + q(n[2], m[4]),
        q(n[3], m[1]) + q(n[4], m[3]), q(n[3], m[2]) + q(n[4], m[4]),
        t[1], t[2] >>
MTrans(tx, ty) == <<ONE, 0, 0, ONE, tx, ty>>
MScl(sx, sy) == <<sx, 0, 0, sy, 0, 0>>
MRot(co, si) == <<co, si, -si, co, 0, 0>>
\* pre-image of a point; the determinant is assumed a small decimal
PreImage(m, x, y) ==
  LET det == MulDiv(m[1], m[4], ONE) - MulDiv(m[2], m[3], ONE)
      ux == x - m[5]
      uy == y - m[6]
      px == MulDiv(ux, m[4], ONE) - MulDiv(uy, m[3], ONE)
      py == MulDiv(uy, m[1], ONE) - MulDiv(ux, m[2], ONE)
      dv(a) == IF Abs(det) % ONE = 0 THEN Sign(det) * QuotR(a, Abs(det) \div ONE)
               ELSE IF det > 0 THEN MulDiv(a, ONE, det) ELSE -MulDiv(a, ONE, -det)
  IN <<dv(px), dv(py)>>
About(m, n, q) == Compose(Compose(Compose(m, MTrans(q[1], q[2])), n), MTrans(-q[1], -q[2]))

MatrixOf(cfg) == Compose(Compose(Compose(Identity, MTrans(cfg.translate[1], cfg.translate[2])),
                                 MScl(cfg.scale[1], cfg.scale[2])),
                         MRot(cfg.rot[1], cfg.rot[2]))

-----------------------------------------------------------------------------
(* The plan of thread changes.  Changes are numbered 0,1,2,...; number 0 is  *)
(* what is in force when sewing starts.                                      *)
Blank == [th |-> 0, ne |-> 0, rk |-> 0]

\* change events of a design, in order: <<flag, thread, needle, order, index>>
PlanEvents(src) ==
  LET step(a, s) ==
        LET i0 == IF a.i = 0 /\ s[3] \in Sewing THEN 1 ELSE a.i
        IN IF s[3] = SETCHANGESEQ
             THEN [i |-> i0, ev |-> Append(a.ev, <<s[3], s[4], s[5], s[6], -1>>)]
           ELSE IF s[3] \in {NEEDLESET, COLORCHANGE, COLORBREAK}
             THEN [i |-> IF s[3] = COLORBREAK /\ i0 = 0 THEN 0 ELSE i0 + 1,
                   ev |-> Append(a.ev, <<s[3], s[4], s[5], 0, i0>>)]
           ELSE [i |-> i0, ev |-> a.ev]
  IN FoldLeft(step, [i |-> 0, ev |-> << >>], src).ev

\* explicit entries: function from change number to Blank-like records
PlanExplicit(evs) ==
  LET step(a, e) ==
        LET idx == IF e[1] = SETCHANGESEQ
                     THEN (IF e[4] = 0 THEN a.look ELSE e[4] - 1)
                     ELSE e[5]
            look == IF e[1] = SETCHANGESEQ
                      THEN (IF e[4] = 0 THEN a.look + 1 ELSE a.look)
                      ELSE (IF idx >= a.look THEN idx + 1 ELSE a.look)
            old == IF idx \in DOMAIN a.f THEN a.f[idx] ELSE [th |-> 0, ne |-> 0]
            new == [th |-> IF e[2] # 0 THEN e[2] ELSE old.th,
                    ne |-> IF e[3] # 0 THEN e[3] ELSE old.ne]
        IN [look |-> look, f |-> (idx :> new) @@ a.f]
  IN FoldLeft(step, [look |-> 0, f |-> (0 :> [th |-> 0, ne |-> 0])], evs).f

\* change number -> <<thread index, needle>> (both as actual numbers)
Plan(src, needles) ==
  LET f == PlanExplicit(PlanEvents(src))
      autoTh(k) == Cardinality({j \in DOMAIN f : j < k /\ f[j].th = 0})
      autoNe(k) == LET n == 1 + Cardinality({j \in DOMAIN f : j < k /\ f[j].ne = 0})
                   IN IF n > needles THEN ((n - 1) % needles) + 1 ELSE n
  IN [k \in DOMAIN f |-> << IF f[k].th # 0 THEN f[k].th - 1 ELSE autoTh(k),
                            IF f[k].ne # 0 THEN f[k].ne - 1 ELSE autoNe(k) >>]

\* thread t (0-based) of a design with the thread list tl; 0 is a placeholder
ThreadAt(tl, t) == IF t < Len(tl) THEN tl[t + 1] ELSE 0

-----------------------------------------------------------------------------
EncInit(cfg, src, tl) ==
  [ nx |-> 0, ny |-> 0, trimmed |-> TRUE, seqmode |-> FALSE, jumping |-> FALSE,
    ord |-> -1, ms |-> cfg.ms, mj |-> cfg.mj, tieon |-> cfg.tieon, tieoff |-> cfg.tieoff,
    long |-> cfg.long, seq |-> cfg.seq, explicit |-> cfg.explicit, m |-> MatrixOf(cfg),
    hf |-> <<0, 0, 0>>, out |-> << >>, done |-> FALSE, last |-> NOCMD,
    plan |-> Plan(src, cfg.needles),
    tcc |-> IF cfg.needles <= 1 /\ cfg.tcc = NEEDLESET THEN STOP ELSE cfg.tcc,
    threads |-> IF cfg.tcc = NEEDLESET /\ cfg.needles > 1 THEN tl ELSE << >> ]

Emit(st, f, x, y) == [st EXCEPT !.out = Append(@, <<x, y, f, st.hf[1], st.hf[2], st.hf[3]>>)]
Move(st, x, y) == [st EXCEPT !.nx = x, !.ny = y]
At(st, f, x, y) == Move(Emit(st, f, x, y), x, y)
Here(st, f) == Emit(st, f, st.nx, st.ny)

ToggleSeq(st) ==
  IF st.seq = SEQUTIL THEN [Here(st, SEQMODE) EXCEPT !.seqmode = ~@] ELSE st
LeaveSeq(st) == IF st.seqmode THEN ToggleSeq(st) ELSE st

\* intermediate points of an over-long move, then the move itself is possible
Gap(st0, x1, y1, lim, f) ==
  LET dx == x1 - st0.nx
      dy == y1 - st0.ny
  IN IF Abs(dx) <= lim /\ Abs(dy) <= lim THEN st0
     ELSE LET st == IF f = JUMP THEN LeaveSeq(st0) ELSE st0
              n == MaxOf(CeilDiv(Abs(dx), lim), CeilDiv(Abs(dy), lim))
              pt(q) == <<st.nx + MulDiv(dx, q, n), st.ny + MulDiv(dy, q, n)>>
              add(s, q) == At(s, f, pt(q)[1], pt(q)[2])
          IN FoldLeft(add, st, [q \in 1 .. (n - 1) |-> q])

StitchAt(st, x, y) == At(st, STITCH, x, y)
JumpAt(st, x, y) == At(LeaveSeq(st), JUMP, x, y)
JumpTo(st, x, y) == JumpAt(Gap(st, x, y, st.mj, JUMP), x, y)
JumpNear(cfg, st, x, y) ==
  LET s == Gap(st, x, y, st.mj, JUMP)
  IN IF cfg.full /\ <<s.nx, s.ny>> # <<x, y>> THEN JumpAt(s, x, y) ELSE s
SewToPt(st, x, y) == StitchAt(Gap(st, x, y, st.ms, STITCH), x, y)
NeedleTo(st, x, y) == StitchAt(Gap(st, x, y, st.ms, JUMP), x, y)
LongStitch(st, x, y) == CASE st.long = LONGSEW  -> SewToPt(st, x, y)
                          [] st.long = LONGJUMP -> NeedleTo(st, x, y)
                          [] OTHER              -> StitchAt(st, x, y)

\* a lock of four stitches from the needle toward (ax,ay), no longer than lim
Lock(st, ax, ay) ==
  LET dx == ax - st.nx
      dy == ay - st.ny
      big == MaxOf(Abs(dx), Abs(dy))
      u == IF big < 30000 THEN 1 ELSE IF big < 300000 THEN 10 ELSE 100
      len == ISqrt((dx \div u) * (dx \div u) + (dy \div u) * (dy \div u))   \* in units of u milli
      clamp(d) == LET co == QuotR((d \div u) * ONE, len) IN MulDiv(st.ms, co, ONE)
      cx == IF len * u > st.ms /\ len > 0 THEN clamp(dx) ELSE dx
      cy == IF len * u > st.ms /\ len > 0 THEN clamp(dy) ELSE dy
      pt(a) == <<st.nx + QuotR(cx * a, 100), st.ny + QuotR(cy * a, 100), STITCH, 0, 0, 0>>
  IN [st EXCEPT !.out = @ \o <<pt(33), pt(66), pt(33), pt(0)>>]

\* a lock toward the neighbouring source command, if that is a stitch
TieToward(st, src, pos) ==
  IF pos < 1 \/ pos > Len(src) THEN st
  ELSE IF src[pos][3] \notin Sewing THEN st
  ELSE LET b == ApplyM(st.m, src[pos][1], src[pos][2]) IN Lock(st, b[1], b[2])
TieOn(st, src, pos) == IF st.tieon THEN TieToward(st, src, pos + 1) ELSE st
TieOff(st, src, pos) == IF st.tieoff THEN TieToward(st, src, pos - 1) ELSE st

TrimHere(st) == [Here(LeaveSeq(st), TRIM) EXCEPT !.trimmed = TRUE]
TrimIfNeeded(st, src, pos) == IF st.trimmed THEN st ELSE TrimHere(TieOff(st, src, pos))

\* take the next planned change
NextChange(st, tl) ==
  LET k == st.ord + 1
      p == st.plan[k]
      emit(s, f) == [s EXCEPT !.out = Append(@, <<s.nx, s.ny, f, p[1] + 1, p[2] + 1, 0>>)]
      s0 == [st EXCEPT !.ord = k, !.trimmed = TRUE]
  IN CASE st.tcc = COLORCHANGE ->
            LET s1 == [s0 EXCEPT !.threads = Append(@, ThreadAt(tl, p[1]))]
            IN IF k = 0 THEN s1 ELSE emit(s1, COLORCHANGE)
       [] st.tcc = NEEDLESET -> emit(s0, NEEDLESET)
       [] st.tcc = STOP -> emit([s0 EXCEPT !.threads = Append(@, ThreadAt(tl, p[1]))], STOP)
       [] OTHER -> s0
Untrim(st, tl) == [(IF st.ord = -1 THEN NextChange(st, tl) ELSE st) EXCEPT !.trimmed = FALSE]

\* will anything still be sewn, from this command on, before the end?
MoreSewing(src, pos) ==
  LET ends == {q \in pos .. Len(src) : src[q][3] = END}
      lim == IF ends = {} THEN Len(src) + 1 ELSE Min(ends)
  IN \E q \in pos .. (lim - 1) : src[q][3] \in Sewing \cup {TIEON}

EndOfRun(st, src, pos) ==
  IF st.trimmed THEN st
  ELSE LET s == TieOff(st, src, pos) IN IF s.explicit THEN TrimHere(s) ELSE s

\* first stitch of a run
StartRun(cfg, st, src, pos, tl, x, y) ==
  TieOn(StitchAt(JumpNear(cfg, Untrim(st, tl), x, y), x, y), src, pos)
AfterBreak(st, x, y) == [NeedleTo(st, x, y) EXCEPT !.jumping = FALSE]

Sequin(st0, x, y) ==
  LET st == IF st0.seqmode THEN st0 ELSE ToggleSeq(st0)
  IN IF st.seq = SEQREMOVE THEN st
     ELSE LET s == Gap(st, x, y, st.ms, STITCH)
              f == CASE st.seq = SEQUTIL -> SEQEJECT [] st.seq = SEQJUMP -> JUMP [] OTHER -> STITCH
          IN At(s, f, x, y)

EncStep(cfg, src, tl, pos, st0) ==
  LET s == src[pos]
      p0 == IF s[3] >= 192 /\ s[3] < 224 THEN <<0, 0>> ELSE ApplyM(st0.m, s[1], s[2])
      x == IF cfg.round THEN RoundMilli(p0[1]) ELSE p0[1]
      y == IF cfg.round THEN RoundMilli(p0[2]) ELSE p0[2]
      f == s[3]
      st == [st0 EXCEPT !.hf = <<s[4], s[5], s[6]>>, !.last = f]
  IN CASE st0.done -> st0
     [] f \in {STITCH, NEEDLEAT, SEWTO} ->
          IF st.trimmed THEN StartRun(cfg, st, src, pos, tl, x, y)
          ELSE IF st.jumping THEN AfterBreak(st, x, y)
          ELSE IF f = STITCH THEN LongStitch(st, x, y)
          ELSE IF f = NEEDLEAT THEN NeedleTo(st, x, y) ELSE SewToPt(st, x, y)
     [] f = STITCHBREAK -> [st EXCEPT !.jumping = TRUE]
     [] f = FRAMEEJECT ->
          [Here(JumpTo(TrimIfNeeded(st, src, pos), x, y), STOP) EXCEPT !.trimmed = TRUE]
     [] f \in {SEQBREAK, TRIM} -> TrimIfNeeded(st, src, pos)
     [] f = COLORBREAK ->
          IF st.ord < 0 THEN st
          ELSE LET e == EndOfRun(st, src, pos)
               IN IF MoreSewing(src, pos) THEN NextChange(e, tl) ELSE e
     [] f \in {COLORCHANGE, NEEDLESET} -> NextChange(EndOfRun(st, src, pos), tl)
     [] f = TIEON -> TieOn(st, src, pos)
     [] f = TIEOFF -> TieOff(st, src, pos)
     [] f = JUMP -> IF st.jumping THEN st ELSE JumpTo(st, x, y)
     [] f = SEQMODE -> ToggleSeq(st)
     [] f = SEQEJECT ->
          Sequin(IF st.trimmed THEN StartRun(cfg, st, src, pos, tl, x, y) ELSE st, x, y)
     [] f = STOP -> [Here(st, STOP) EXCEPT !.trimmed = TRUE]
     [] f = SLOW -> IF cfg.speeds THEN Here(st, SLOW) ELSE st
     [] f = FAST -> IF cfg.speeds THEN Here(st, FAST) ELSE st
     [] f = END -> [Here(st, END) EXCEPT !.trimmed = TRUE, !.done = TRUE]
     [] f = TIEONSMALL -> [st EXCEPT !.tieon = TRUE]
     [] f = TIEOFFSMALL -> [st EXCEPT !.tieoff = TRUE]
     [] f = TIEONNONE -> [st EXCEPT !.tieon = FALSE]
     [] f = TIEOFFNONE -> [st EXCEPT !.tieoff = FALSE]
     [] f = OPTMAXJUMP -> [st EXCEPT !.mj = s[1]]
     [] f = OPTMAXSTITCH -> [st EXCEPT !.ms = s[1]]
     [] f = OPTEXPLICIT -> [st EXCEPT !.explicit = TRUE]
     [] f = OPTIMPLICIT -> [st EXCEPT !.explicit = FALSE]
     [] f \in {LONGNONE, LONGJUMP, LONGSEW} -> [st EXCEPT !.long = f]
     [] f \in {SEQREMOVE, SEQSTITCH, SEQJUMP} -> [LeaveSeq(st) EXCEPT !.seq = f]
     [] f = SEQUTIL -> [st EXCEPT !.seq = f]
     [] f = MTRANSLATE -> [st EXCEPT !.m = Compose(@, MTrans(s[1], s[2]))]
     [] f = MSCALEORIGIN -> [st EXCEPT !.m = Compose(@, MScl(s[1], s[2]))]
     [] f = MROTATEORIGIN -> [st EXCEPT !.m = Compose(@, MRot(s[1], s[2]))]
     [] f = MSCALE -> [st EXCEPT !.m = About(@, MScl(s[1], s[2]), PreImage(@, st.nx, st.ny))]
     [] f = MROTATE -> [st EXCEPT !.m = About(@, MRot(s[1], s[2]), PreImage(@, st.nx, st.ny))]
     [] f = MRESET -> [st EXCEPT !.m = Identity]
     [] OTHER -> st

EncFinish(st) ==
  IF st.done THEN st
  ELSE [Here(st, END) EXCEPT !.done = TRUE, !.trimmed = TRUE]

Encode(cfg, src, tl) ==
  EncFinish(FoldLeft(LAMBDA st, pos : EncStep(cfg, src, tl, pos, st),
                     EncInit(cfg, src, tl), [q \in 1 .. Len(src) |-> q]))
=============================================================================
