------------------------------ MODULE PatternMC ------------------------------
(* Exhaustive check of Pattern and Post: every design (or pair, or history)   *)
(* up to N commands, against statements that do not mention how the           *)
(* operators work.                                                            *)
EXTENDS Pattern
CONSTANTS Mode, N

Flags == CASE Mode = "blocks" -> {STITCH, JUMP, COLORCHANGE, COLORBREAK, NEEDLESET}
           [] Mode = "post" -> {STITCH, JUMP, TRIM, STOP, COLORCHANGE, END}
           [] Mode = "stops" -> {STITCH, STOP, COLORCHANGE, COLORBREAK}
           [] Mode = "merge" -> {STITCH, TRIM, COLORCHANGE, END}
           [] OTHER -> {}
Xs == IF Mode = "post" THEN {0, 12000} ELSE {0}
Thrs == CASE Mode = "stops" -> {<< >>, <<1>>, <<1, 2>>, <<1, 1, 2>>, <<1, 2, 2, 1>>, <<1, 2, 1, 2, 1, 2, 1>>}
          [] Mode = "merge" -> {<< >>, <<1>>, <<2>>, <<1, 2>>, <<2, 1, 2>>}
          [] OTHER -> {<< >>}
NoB == [q |-> << >>, thr |-> << >>]
VARIABLES a, b, side, call
vars == <<a, b, side, call>>
Init == /\ side = 1 /\ call = [m |-> "none", at |-> FALSE, x |-> 0, y |-> 0]
        /\ a \in [q : {<< >>}, thr : Thrs, ext : {{}}, cur : {<<0, 0>>}]
        /\ b \in (IF Mode = "merge" THEN [q : {<< >>}, thr : Thrs, ext : {{}}, cur : {<<0, 0>>}] ELSE {Empty})
\* a command carries its number, so that it can be told from all others
More(P, base) == \E f \in Flags, x \in Xs : P' = [P EXCEPT !.q = Append(@, <<x, base + Len(P.q), f, 0, 0, 0>>)]
GrowA == Mode # "api" /\ side = 1 /\ Len(a.q) < N /\ More(a, 0) /\ UNCHANGED <<b, side, call>>
Turn == Mode = "merge" /\ side = 1 /\ side' = 2 /\ UNCHANGED <<a, b, call>>
GrowB == Mode = "merge" /\ side = 2 /\ Len(b.q) < N /\ More(b, 50) /\ UNCHANGED <<a, side, call>>

\* --- the API as a machine
O(m, at, k, f, x, y, n) == [m |-> m, at |-> at, k |-> k, c |-> Bare(f), x |-> x, y |-> y, n |-> n, l |-> << >>, s |-> "name", t |-> "v"]
Calls == {O(m, FALSE, 0, 0, x, 1, 3) : m \in {"move", "stitch", "color_change", "needle_change", "stitch_abs"}, x \in {2}}
         \cup {O("stitch", TRUE, k, 0, 4, 5, 0) : k \in {0, 1, -1}}
         \cup {O("move_abs", TRUE, k, 0, 7, 8, 0) : k \in {0, 1, -1, 9}}
         \cup {O("add_command", FALSE, 0, SLOW, 30, 30, 0), O("prepend_command", FALSE, 0, TRIM, 9, 9, 0), O("append_translation", FALSE, 0, 0, 3, 3, 0),
               O("set_item", FALSE, -1, JUMP, 20, 21, 0), O("iadd_thread", FALSE, 0, 0, 0, 0, 1), O("add_thread", FALSE, 0, 0, 0, 0, 2),
               O("translate", FALSE, 0, 0, 100, 200, 0), O("center", FALSE, 0, 0, 0, 0, 0), O("metadata", FALSE, 0, 0, 0, 0, 0), O("clear", FALSE, 0, 0, 0, 0, 0),
               [O("add_block", FALSE, 0, 0, 0, 0, 1) EXCEPT !.l = << <<1, 1, Bare(STITCH)>>, <<2, 5, Bare(JUMP)>> >>]}
Call == Mode = "api" /\ side <= N /\ \E o \in Calls :
          /\ (o.at \/ o.m = "set_item") => Len(a.q) > 0
          /\ a' = Apply(a, o) /\ call' = o /\ side' = side + 1 /\ UNCHANGED b
Halt == UNCHANGED vars
Next == GrowA \/ Turn \/ GrowB \/ Call \/ Halt
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Q == a.q
Pick(q, F) == Filter(q, LAMBDA s : s[3] \in F)
RECURSIVE Cat(_, _)
Cat(bs, q) == IF bs = << >> THEN << >> ELSE SubSeq(q, Head(bs)[1], Head(bs)[2]) \o Cat(Tail(bs), q)
\* the thread number in force at each command, by counting
ThreadOf(q, i) == 1 + Cardinality({j \in 1..(i - 1) : q[j][3] = COLORCHANGE})
                    + Cardinality({j \in 1..i : /\ q[j][3] \in {COLORBREAK, NEEDLESET}
                                                /\ j > 1 /\ q[j - 1][3] \notin {COLORBREAK, COLORCHANGE}})
                    
\* P19
ColorPartition == Cat(ColorBlocks(Q), Q) = Filter(Q, LAMBDA s : s[3] # COLORBREAK)
NonEmpty == \A v \in {ColorBlocks(Q), StitchBlocks(Q), CommandBlocks(Q)} : \A n \in DOMAIN v : v[n][1] <= v[n][2]
InOrder == LET v == ColorBlocks(Q) IN \A n \in DOMAIN v : v[n][3] = n
StitchesOnce == Cat(StitchBlocks(Q), Q) = Pick(Q, {STITCH})
StitchMaximal == LET v == StitchBlocks(Q)
                     u == ColorBlocks(Q)
                     blk(i) == CHOOSE n \in DOMAIN u : u[n][1] <= i /\ i <= u[n][2]
                 IN \A n \in DOMAIN v : /\ n > 1 => (v[n][1] > v[n - 1][2] + 1 \/ blk(v[n][1]) # blk(v[n - 1][2]))
                                        /\ blk(v[n][1]) = blk(v[n][2]) /\ v[n][3] = u[blk(v[n][1])][3]
StitchThread == LET v == StitchBlocks(Q) IN \A n \in DOMAIN v : v[n][3] = ThreadOf(Q, v[n][1])
CommandPartition == /\ Cat(CommandBlocks(Q), Q) = Q
                    /\ LET v == CommandBlocks(Q)
                       IN \A n \in DOMAIN v : /\ \A i \in v[n][1]..v[n][2] : Q[i][3] = Q[v[n][1]][3]
                                              /\ n > 1 => Q[v[n][1]][3] # Q[v[n - 1][1]][3]
StableKeeps == LET s == Stable(Q)
                   w == StitchBlocks(s.q)
               IN /\ Pick(s.q, {STITCH}) = Pick(Q, {STITCH})
                  /\ Len(s.thr) = 1 + Cnt(s.q, {COLORBREAK}) - 1
                  /\ \A n \in DOMAIN w : s.thr[w[n][3]] = StitchBlocks(Q)[n][3]
\* P20
Kept(q) == Pick(q, {STITCH, STOP, COLORCHANGE, END})
Jumpless(q) == Pick(q, {STITCH})
TrimKeeps == \A cnt \in {0, 2}, dist \in {-1, 10000}, clip \in BOOLEAN :
               LET r == InterpTrims(Q, cnt, dist, clip, <<0, 0, 0>>)
               IN /\ Kept(r) = Kept(Q)
                  /\ ~clip => Filter(r, LAMBDA s : s[3] # TRIM) = Filter(Q, LAMBDA s : s[3] # TRIM)
                  /\ cnt = 0 /\ dist = -1 /\ ~clip => r = Q
JumpTrimKeeps == \A n \in {1, 2, 9} : LET r == JumpTrims(Q, n)
                                      IN Kept(r) = Kept(Q) /\ (n = 9 => Cnt(r, {TRIM}) = Cnt(Q, {TRIM}))
MergeKeeps == LET r == MergeJumps(Q)
              IN Kept(r) = Kept(Q) /\ Cnt(r, {JUMP}) = 0 /\ Cnt(r, {STITCHBREAK}) = Cardinality({i \in DOMAIN Q : Q[i][3] = JUMP /\ (i = Len(Q) \/ Q[i + 1][3] # JUMP)})
FrameKeeps == LET r == FrameEjects(Q)
              IN /\ Pick(r, {STITCH, COLORCHANGE, TRIM, END}) = Pick(Q, {STITCH, COLORCHANGE, TRIM, END})
                 /\ Cnt(r, {STOP, FRAMEEJECT}) = Cnt(Q, {STOP})
\* P16: every stitch keeps its thread, stops and changes keep their order and place
Threaded(q, thr) == LET step(w, s) == CASE s[3] = STITCH -> [w EXCEPT !.l = Append(@, <<s[2], IF w.k <= Len(thr) THEN thr[w.k] ELSE 0>>), !.sewn = TRUE]
                                        [] s[3] = COLORCHANGE \/ (w.sewn /\ s[3] \in {COLORBREAK, NEEDLESET}) -> [w EXCEPT !.k = @ + 1]
                                        [] OTHER -> w
                    IN FoldLeft(step, [l |-> << >>, k |-> 1, sewn |-> FALSE], q).l
StopKeeps == LET r == StopAsDup(Q, a.thr, COLORCHANGE)
             IN /\ Pick(r.q, {STITCH}) = Pick(Q, {STITCH}) /\ Len(r.q) = Len(Q)
                /\ \A i \in DOMAIN Q : r.q[i][2] = Q[i][2] /\ (r.q[i][3] # Q[i][3] => Q[i][3] = STOP)
                /\ (Cnt(Q, {COLORBREAK}) = 0 => Threaded(r.q, r.thr) = Threaded(Q, a.thr))
                /\ Cnt(r.q, {COLORCHANGE}) - Cnt(Q, {COLORCHANGE}) = Len(r.thr) - Len(a.thr)
DupKeeps == LET r == DupAsStop(Q, a.thr)
            IN /\ Len(r.q) = Len(Q) /\ (\A i \in DOMAIN Q : r.q[i][2] = Q[i][2] /\ (r.q[i][3] # Q[i][3] => r.q[i][3] = STOP))
               /\ Threaded(r.q, r.thr) = Threaded(Q, a.thr)
Distinct(t) == \A i \in DOMAIN t : i > 1 => t[i] # t[i - 1]
BackAgain == (Distinct(a.thr) /\ Len(a.thr) > 1 + Cnt(Q, {COLORCHANGE, COLORBREAK})) =>
                LET s == StopAsDup(Q, a.thr, COLORCHANGE)
                    d == DupAsStop(s.q, s.thr)
                IN Cnt(Q, {COLORBREAK}) = 0 => d.q = Q /\ d.thr = a.thr /\ Cnt(s.q, {STOP}) = 0
\* P18: what is sewn, with its thread, is what the first sews and then what the second sews, moved
Live(q) == LET e == {i \in DOMAIN q : q[i][3] = END} IN IF e = {} THEN q ELSE SubSeq(q, 1, Min(e) - 1)
OneEndLast(q) == Cnt(q, {END}) = 0 \/ (Cnt(q, {END}) = 1 /\ q[Len(q)][3] = END)
Fair == /\ OneEndLast(a.q) /\ OneEndLast(b.q)
        /\ Len(a.thr) >= ThreadWalk(a.q).need /\ Len(b.thr) >= ThreadWalk(b.q).need
        /\ (a.q # << >> => a.q[1][3] # COLORCHANGE)
        /\ Cnt(b.q, Sews) > 0
        /\ LET f == Min({i \in DOMAIN b.q : b.q[i][3] \in Sews}) IN \A i \in 1..(f - 1) : b.q[i][3] # COLORCHANGE
MergeSews == (side = 2 /\ Fair) =>
   LET r == Merge(a, b, NoMove)
       sa == Threaded(StripEnd(a.q), a.thr)
       sb == Threaded(b.q, b.thr)
       k(q) == Cnt(q, {COLORCHANGE})
       last == sa[Len(sa)][2]
   IN /\ Threaded(r.q, r.thr) = sa \o sb
      /\ Pick(r.q, {TRIM}) = Pick(a.q, {TRIM}) \o Pick(b.q, {TRIM})
      /\ sa # << >> => k(r.q) = k(a.q) + k(b.q) + (IF a.q # << >> /\ StripEnd(a.q)[Len(StripEnd(a.q))][3] # COLORCHANGE /\ ThreadWalk(a.q).k + 1 = ThreadWalk(a.q).need
                                                    THEN (IF last = sb[1][2] THEN 0 ELSE 1) ELSE k(r.q) - k(a.q) - k(b.q))
MergeEmpty == side = 2 => /\ Merge(a, Empty, NoMove).q = StripEnd(a.q)
                          /\ (a.q = << >> /\ a.thr = << >>) => Merge(a, b, NoMove).thr = b.thr
\* P17
CursorIsLastAdded == [][call'.m \in {"move", "stitch", "color_change", "needle_change"} /\ ~call'.at =>
                          /\ a'.q = Append(a.q, a'.q[Len(a'.q)])
                          /\ <<a'.q[Len(a'.q)][1], a'.q[Len(a'.q)][2]>> = a'.cur
                          /\ a'.cur = <<a.cur[1] + call'.x, a.cur[2] + call'.y>>]_vars
InsertShiftsOnlyLater == [][(call'.at \/ call'.m = "prepend_command") =>
                             \E i \in 0..Len(a.q) : /\ SubSeq(a'.q, 1, i) = SubSeq(a.q, 1, i)
                                                    /\ SubSeq(a'.q, i + 2, Len(a'.q)) = SubSeq(a.q, i + 1, Len(a.q))
                                                    /\ Len(a'.q) = Len(a.q) + 1]_vars
PositionlessKeepCursor == [][call'.m \in {"add_command", "prepend_command", "append_translation", "add_thread", "metadata"} => a'.cur = a.cur]_vars
BoundsHold == LET w == Bounds(Q) IN /\ \A i \in DOMAIN Q : Q[i][1] \in w[1]..w[3] /\ Q[i][2] \in w[2]..w[4]
                                    /\ Q # << >> => /\ \E i, j \in DOMAIN Q : Q[i][1] = w[1] /\ Q[j][3 - 2] = w[3]
                                                    /\ \E i, j \in DOMAIN Q : Q[i][2] = w[2] /\ Q[j][2] = w[4]
CenterHolds == LET w == Bounds(Centered(Q)) IN Q # << >> => Abs(w[1] + w[3]) <= 1000 /\ Abs(w[2] + w[4]) <= 1000
=============================================================================
