------------------------------- MODULE Pattern -------------------------------
(* The design as its composition API shows it.                               *)
(* P: q commands, thr threads (numbers; -1 filler), ext a set of <<key,text>>*)
(* pairs, cur the position relative calls start from.                        *)
EXTENDS Post
Empty == [q |-> << >>, thr |-> << >>, ext |-> {}, cur |-> <<0, 0>>]

C6(c, x, y) == <<x, y, c[1], c[2], c[3], c[4]>>
AddAbs(P, c, x, y) == [P EXCEPT !.q = Append(@, C6(c, x, y)), !.cur = <<x, y>>]
AddRel(P, c, dx, dy) == AddAbs(P, c, P.cur[1] + dx, P.cur[2] + dy)
AddCmd(P, c, x, y) == [P EXCEPT !.q = Append(@, C6(c, x, y))]
\* a place counted from the end when negative; n = how many commands come before
Place(n, k) == IF k < 0 THEN MaxOf(n + k, 0) ELSE MinOf(k, n)
PutAt(q, k, s) == SubSeq(q, 1, k) \o <<s>> \o SubSeq(q, k + 1, Len(q))
InsAbs(P, k, c, x, y) == [P EXCEPT !.q = PutAt(@, Place(Len(@), k), C6(c, x, y))]
InsRel(P, k, c, dx, dy) ==
  LET i == Place(Len(P.q), k)
  IN IF i = 0 THEN InsAbs(P, 0, c, dx, dy)
     ELSE IF i = Len(P.q) THEN AddRel(P, c, dx, dy)
     ELSE InsAbs(P, i, c, P.q[i][1] + dx, P.q[i][2] + dy)
RelCmd(m, n) == CASE m = "move" -> Bare(JUMP) [] m = "stitch" -> Bare(STITCH) [] m = "stop" -> Bare(STOP)
                  [] m = "trim" -> Bare(TRIM) [] m = "color_change" -> Bare(COLORCHANGE)
                  [] m = "needle_change" -> <<NEEDLESET, 0, n + 1, 0>>
                  [] m = "sequin_eject" -> Bare(SEQEJECT) [] m = "sequin_mode" -> Bare(SEQMODE)
                  [] m = "end" -> Bare(END)
AbsCmd(m) == IF m = "move_abs" THEN Bare(JUMP) ELSE Bare(STITCH)
\* a list of points [x, y, command]
AddPoints(P, l) == FoldLeft(LAMBDA a, v : AddAbs(a, v[3], v[1], v[2]), P, l)
SetExt(P, k, v) == [P EXCEPT !.ext = {e \in @ : e[1] # k} \cup {<<k, v>>}]
AddThread(P, t) == [P EXCEPT !.thr = Append(@, t)]
Bounds(q) == IF q = << >> THEN <<0, 0, 0, 0>>
             ELSE LET xs == {q[i][1] : i \in DOMAIN q}
                      ys == {q[i][2] : i \in DOMAIN q}
                  IN <<Min(xs), Min(ys), Max(xs), Max(ys)>>
Shift(q, dx, dy) == [i \in DOMAIN q |-> [q[i] EXCEPT ![1] = @ + dx, ![2] = @ + dy]]
\* half of a number of thousandths, rounded to a whole unit, halves to even
HalfRound(a) == LET u == a \div 2000
                    r == a % 2000
                IN 1000 * (IF r < 1000 THEN u ELSE IF r > 1000 THEN u + 1 ELSE IF u % 2 = 0 THEN u ELSE u + 1)
Centered(q) == LET b == Bounds(q) IN Shift(q, -HalfRound(b[1] + b[3]), -HalfRound(b[2] + b[4]))

(* --- threads for all blocks that sew -------------------------------------- *)
ThreadWalk(q) ==
  FoldLeft(LAMBDA a, s : IF s[3] \in Sews THEN [a EXCEPT !.sewn = TRUE, !.need = a.k + 1]
                         ELSE IF s[3] = COLORCHANGE \/ (a.sewn /\ s[3] \in {COLORBREAK, NEEDLESET})
                         THEN [a EXCEPT !.k = @ + 1] ELSE a,
           [k |-> 0, need |-> 0, sewn |-> FALSE], q)
FillTo(thr, n) == thr \o [i \in 1..MaxOf(0, n - Len(thr)) |-> -1]
FixColors(P) == [P EXCEPT !.thr = FillTo(@, ThreadWalk(P.q).need)]

(* --- one design after the other ------------------------------------------- *)
RECURSIVE StripEnd(_)
StripEnd(q) == IF q # << >> /\ q[Len(q)][3] \in {END, COLORBREAK} THEN StripEnd(SubSeq(q, 1, Len(q) - 1)) ELSE q
\* the second's leading changes mean nothing: it starts in its own first thread anyway
DropLead(q) == LET f == {i \in DOMAIN q : q[i][3] \in Sews}
                   n == IF f = {} THEN Len(q) + 1 ELSE Min(f)
                   keep == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : i >= n \/ q[i][3] \notin Changes)
               IN [k \in DOMAIN keep |-> q[keep[k]]]
MoveCmds(mv) ==
  (IF mv.t = << >> THEN << >> ELSE << <<mv.t[1], mv.t[2], MTRANSLATE, 0, 0, 0>> >>)
  \o (IF mv.s = << >> THEN << >> ELSE << <<mv.s[1], mv.s[2], MSCALE, 0, 0, 0>> >>)
  \o (IF mv.r = << >> THEN << >> ELSE << <<mv.r[1], mv.r[2], MROTATE, 0, 0, 0>> >>)
NoMove == [t |-> << >>, s |-> << >>, r |-> << >>]
\* B is added to A.  k: changes in A.  B's threads come right after the thread
\* in force, in its place when nothing is sewn with that one yet
Merge(A, B, mv) ==
  LET q0 == StripEnd(A.q)
      w == ThreadWalk(q0)
      t0 == FillTo(A.thr, w.need)
      th == FillTo(t0, w.k)
      fresh == ~w.sewn \/ Len(th) = w.k
      same == ~fresh /\ B.thr[1] = th[w.k + 1]
      at == IF fresh THEN w.k ELSE w.k + 1
      new == IF same THEN Tail(B.thr) ELSE B.thr
      chg == ~fresh /\ ~same
  IN [q |-> q0 \o MoveCmds(mv)
            \o (IF B.thr # << >> /\ chg THEN << <<A.cur[1], A.cur[2], COLORCHANGE, 0, 0, 0>> >> ELSE << >>)
            \o DropLead(B.q),
      thr |-> IF B.thr = << >> THEN t0 ELSE SubSeq(th, 1, at) \o new \o SubSeq(th, at + 1, Len(th)),
      ext |-> {e \in A.ext : \A f \in B.ext : f[1] # e[1]} \cup B.ext,
      cur |-> A.cur]

(* --- a matrix: x' = a*x + c*y + e, y' = b*x + d*y + f ---------------------- *)
Moved(s, m) == [s EXCEPT ![1] = m[1] * s[1] + m[3] * s[2] + m[5], ![2] = m[2] * s[1] + m[4] * s[2] + m[6]]
(* --- one call ------------------------------------------------------------- *)
Apply(P, o) ==
  CASE o.m \in {"move", "stitch", "stop", "trim", "color_change", "needle_change", "sequin_eject", "sequin_mode", "end"} ->
         IF o.at THEN InsRel(P, o.k, RelCmd(o.m, o.n), o.x, o.y) ELSE AddRel(P, RelCmd(o.m, o.n), o.x, o.y)
    [] o.m \in {"move_abs", "stitch_abs"} ->
         IF o.at THEN InsAbs(P, o.k, AbsCmd(o.m), o.x, o.y) ELSE AddAbs(P, AbsCmd(o.m), o.x, o.y)
    [] o.m = "add_stitch_absolute" -> AddAbs(P, o.c, o.x, o.y)
    [] o.m = "add_stitch_relative" -> AddRel(P, o.c, o.x, o.y)
    [] o.m = "insert_stitch_relative" -> InsRel(P, o.k, o.c, o.x, o.y)
    [] o.m = "insert" -> InsAbs(P, o.k, o.c, o.x, o.y)
    [] o.m = "prepend_command" -> InsAbs(P, 0, o.c, o.x, o.y)
    [] o.m = "add_command" -> AddCmd(P, o.c, o.x, o.y)
    [] o.m = "append_translation" -> AddCmd(P, Bare(MTRANSLATE), o.x, o.y)
    [] o.m = "set_item" -> [P EXCEPT !.q[Place(Len(P.q), o.k) + 1] = C6(o.c, o.x, o.y)]
    [] o.m = "points" -> AddPoints(P, o.l)
    [] o.m = "add_block" -> LET T == IF o.n = -1 THEN P ELSE AddThread(P, o.n)
                            IN IF o.l = << >> THEN T ELSE AddCmd(AddPoints(T, o.l), Bare(COLORBREAK), 0, 0)
    [] o.m = "iadd_thread" -> LET T == AddThread(P, o.n)
                              IN IF Cnt(P.q, Sews) > 0 THEN AddRel(T, Bare(COLORCHANGE), 0, 0) ELSE T
    [] o.m = "add_thread" -> AddThread(P, o.n)
    [] o.m = "metadata" -> SetExt(P, o.s, o.t)
    [] o.m = "translate" -> [P EXCEPT !.q = Shift(@, o.x, o.y)]
    [] o.m = "center" -> [P EXCEPT !.q = Centered(@)]
    [] o.m = "fix_color_count" -> FixColors(P)
    [] o.m \in {"merge", "merge_self"} -> Merge(P, [q |-> o.b.q, thr |-> o.b.thr, ext |-> {o.b.ext[i] : i \in DOMAIN o.b.ext}, cur |-> o.b.cur], o.mv)
    [] o.m = "transform" -> [P EXCEPT !.q = [i \in DOMAIN @ |-> Moved(@[i], o.mx)]]
    [] o.m = "stitchblock" ->
         LET T == IF o.at THEN AddRel(P, Bare(SEQBREAK), 0, 0) ELSE AddRel(AddThread(P, o.n), Bare(COLORBREAK), 0, 0)
         IN AddPoints(T, o.l)
    [] o.m = "trims" -> [P EXCEPT !.q = InterpTrims(@, o.arg.cnt, o.arg.dist, o.arg.clip, <<0, 0, 0>>)]
    [] o.m = "frame" -> [P EXCEPT !.q = FrameEjects(@)]
    [] o.m = "stop_as_dup" -> LET s == StopAsDup(P.q, P.thr, COLORCHANGE) IN [P EXCEPT !.q = s.q, !.thr = s.thr]
    [] o.m = "dup_as_stop" -> LET s == DupAsStop(P.q, P.thr) IN [P EXCEPT !.q = s.q, !.thr = s.thr]
    [] o.m = "clear" -> Empty
    [] o.m = "copy" -> P
    [] o.m = "json" -> [P EXCEPT !.cur = IF P.q = << >> THEN <<0, 0>> ELSE At(P.q, Len(P.q))]
    [] o.m = "query" -> P
=============================================================================
