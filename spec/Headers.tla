------------------------------- MODULE Headers -------------------------------
(* What the fields of a written file say, and what the design and the bytes     *)
(* behind them say.  B: the file; D: the low-level design; each operator gives   *)
(* the set of clauses that fail.                                                 *)
EXTENDS Formats, Vp3, Post, Palettes
Th == INSTANCE Threads
U8(B, o) == Byte(B, o + 1)                              \* o counts from 0
U16(B, o) == U8(B, o) + 256 * U8(B, o + 1)
I16(B, o) == S16(U16(B, o))
U24(B, o) == U16(B, o) + 65536 * U8(B, o + 2)
I32(B, o) == U24(B, o) + 16777216 * S8(U8(B, o + 3))
At0(B, o, w) == Is(B, o + 1, w)
Fill(B, o, e, v) == \A k \in o..(e - 1) : U8(B, k) = v
\* decimal text of n characters: spaces, then digits; -1 when it is not that
Digit(b) == b >= 48 /\ b <= 57
TextNum(B, o, n) ==
  LET w == SubSeq(B, o + 1, o + n)
      sp == {i \in DOMAIN w : w[i] = 32}
      f == IF sp = {} THEN 0 ELSE Max(sp)
  IN IF Len(w) = n /\ f < n /\ (\A i \in 1..f : w[i] = 32) /\ (\A i \in (f + 1)..n : Digit(w[i]))
     THEN FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, SubSeq(w, f + 1, n)) ELSE -1
Clause(name, holds) == IF holds THEN {} ELSE {name}
One(v, m) == Near(1000 * v, m, 1000)                    \* within one unit
Cnt_(D, F) == Cardinality({i \in DOMAIN D : D[i][3] \in F})
Ext(D) ==
  LET xs == {D[i][1] : i \in DOMAIN D}
      ys == {D[i][2] : i \in DOMAIN D}
  IN IF D = << >> THEN [l |-> 0, t |-> 0, r |-> 0, b |-> 0] ELSE [l |-> Min(xs), t |-> Min(ys), r |-> Max(xs), b |-> Max(ys)]
LastOf(D) == IF D = << >> THEN <<0, 0>> ELSE <<D[Len(D)][1], D[Len(D)][2]>>
\* a signless extent: the distance, or nothing where the design does not reach that side
Side(v, m) == One(v, Abs(m)) \/ One(v, MaxOf(0, m))
SignNum(B, o) == IF U8(B, o) = 45 THEN -TextNum(B, o + 1, 5) ELSE TextNum(B, o + 1, 5)

\* the text lines shared by DST and TBF from `o`: LA ST CO +X -X +Y -Y AX AY
TextHead(B, o, D, changes) ==
  LET e == Ext(D)
      lp == LastOf(D)
  IN Clause("head.shape", /\ At0(B, o, <<76, 65, 58>>) /\ U8(B, o + 19) = 13
       /\ At0(B, o + 20, <<83, 84, 58>>) /\ U8(B, o + 30) = 13 /\ At0(B, o + 31, <<67, 79, 58>>) /\ U8(B, o + 37) = 13
       /\ At0(B, o + 38, <<43, 88, 58>>) /\ At0(B, o + 46, <<13, 45, 88, 58>>) /\ At0(B, o + 55, <<13, 43, 89, 58>>) /\ At0(B, o + 64, <<13, 45, 89, 58>>)
       /\ At0(B, o + 73, <<13, 65, 88, 58>>) /\ At0(B, o + 83, <<13, 65, 89, 58>>) /\ U8(B, o + 93) = 13 /\ {U8(B, o + 77), U8(B, o + 87)} \subseteq {43, 45})
     \cup Clause("head.counts", TextNum(B, o + 23, 7) = Len(D) /\ TextNum(B, o + 34, 3) = changes)
     \cup Clause("head.extents", Side(TextNum(B, o + 41, 5), e.r) /\ Side(TextNum(B, o + 50, 5), -e.l) /\ Side(TextNum(B, o + 59, 5), e.b) /\ Side(TextNum(B, o + 68, 5), -e.t))
     \cup Clause("head.last", One(SignNum(B, o + 77), lp[1]) /\ One(SignNum(B, o + 87), -lp[2]))

RECURSIVE LinesEnd(_, _)
LinesEnd(B, o) == \* behind the lines AU: CP: TC:, or -1
  IF o >= 512 THEN -1
  ELSE IF U8(B, o) = 26 THEN o
  ELSE IF ~(At0(B, o, <<65, 85, 58>>) \/ At0(B, o, <<67, 80, 58>>) \/ At0(B, o, <<84, 67, 58>>)) THEN -1
  ELSE LET r == {k \in o..511 : U8(B, k) = 13} IN IF r = {} THEN -1 ELSE LinesEnd(B, Min(r) + 1)
Dst(B, D) ==
  LET z == LinesEnd(B, 124)
  IN TextHead(B, 0, D, Cnt_(D, {COLORCHANGE}))
     \cup Clause("head.shape", At0(B, 94, <<77, 88, 58, 43>>) /\ TextNum(B, 98, 5) = 0 /\ At0(B, 103, <<13, 77, 89, 58, 43>>) /\ TextNum(B, 108, 5) = 0
          /\ At0(B, 113, <<13, 80, 68, 58>>) /\ U8(B, 123) = 13 /\ z >= 124 /\ (z > 0 => Fill(B, z + 1, 512, 32)))
     \cup Clause("head.offsets", Len(B) >= 512 /\ (Len(B) - 512) % 3 = 0 /\ (D # << >> /\ D[Len(D)][3] = END => At0(B, Len(B) - 3, <<0, 0, 243>>)))
Tbf(B, D, rgbs) ==
  LET needles == SelectSeq(D, LAMBDA s : s[3] = NEEDLESET)
      n == MinOf(201, Len(rgbs))
      da == MaxOf(886, 526 + 5 * n)                       \* long thread lists take of the room that follows
  IN TextHead(B, 128, D, Len(needles))
     \cup Clause("head.shape", At0(B, 0, <<51, 46, 48, 48>>) /\ Fill(B, 4, 128, 32) /\ At0(B, 222, <<84, 80, 58>>) /\ At0(B, 257, <<13, 74, 67, 58, 51, 13, 68, 79, 58>>)
          /\ At0(B, 522, <<13, 68, 65, 58>>) /\ Fill(B, 526 + 5 * n, da, 32) /\ At0(B, da, <<13, 26>>) /\ Fill(B, da + 2, 1536, 32))
     \cup Clause("head.order", \A k \in 0..255 : U8(B, 266 + k) = (IF k < Len(needles) THEN needles[k + 1][4] - 1 ELSE 0))
     \cup Clause("head.threads", \A k \in 1..n : rgbs[k][1] >= 0 => At0(B, 521 + 5 * k, <<69>> \o rgbs[k] \o <<32>>))
     \cup Clause("head.offsets", Len(B) >= 1537 /\ (Len(B) - 1537) % 3 = 0 /\ U8(B, Len(B) - 1) = 26
          /\ (D # << >> /\ D[Len(D)][3] = END => U8(B, Len(B) - 2) = 143))
\* the file beside it: the needles in order, each with a 1, and as many zeros
Ct0(B, D) ==
  LET k == SelectSeq(D, LAMBDA s : s[3] = NEEDLESET)
      n == Len(k)
  IN Clause("head.shape", /\ Len(B) = 1936
        /\ At0(B, 0, <<84, 65, 74, 45, 68, 71, 77, 76, 45, 80, 85, 76, 83, 69>>) /\ U8(B, 31) = 129 /\ At0(B, 32, <<126, 52, 48, 48, 46, 48, 41, 83>>)
        /\ At0(B, 96, <<68, 67, 49, 58>>) /\ At0(B, 264, <<78, 83, 49, 58, 49, 49>>) /\ At0(B, 781, <<13, 82, 80, 48, 58>>)
        /\ At0(B, 1076, <<83, 84, 48, 58>>) /\ At0(B, 1411, <<13, 78, 83, 51, 58>>) /\ At0(B, 1912, <<13, 26>>) /\ Fill(B, 1914, 1936, 32))
     \cup Clause("head.order", (\A i \in 1..n : At0(B, 268 + 2 * i, <<(48 + k[i][4] - 1) % 256, 49>>)) /\ Fill(B, 270 + 2 * n, 781, 32))
     \cup Clause("head.counts", \E z \in 1076..1411 : At0(B, z, <<78, 83, 50, 58>>) /\ Fill(B, z + 4, z + 4 + n, 48) /\ Fill(B, z + 4 + n, 1411, 32))
U01(B, D) ==
  LET e == Ext(D)
      lp == LastOf(D)
  IN IF D = << >> THEN Clause("head.shape", Fill(B, 0, 128, 48))
     ELSE Clause("head.shape", Fill(B, 0, 128, 48) /\ Fill(B, 148, 256, 0) /\ At0(B, 136, <<0, 0, 0, 0>>))
          \cup Clause("head.extents", One(I16(B, 128), e.l) /\ One(I16(B, 130), -e.b) /\ One(I16(B, 132), e.r) /\ One(I16(B, 134), -e.t))
          \cup Clause("head.counts", I32(B, 140) = Len(D) + 1)
          \cup Clause("head.last", One(I16(B, 144), lp[1]) /\ One(I16(B, 146), -lp[2]))
          \cup Clause("head.offsets", Len(B) >= 259 /\ (Len(B) - 256) % 3 = 0 /\ At0(B, Len(B) - 3, <<248, 0, 0>>))
Xxx(B, D, rgbs) ==
  LET e == Ext(D)
      lp == LastOf(D)
      z == I32(B, 252)
      n == Len(rgbs)
  IN Clause("head.shape", Fill(B, 0, 23, 0) /\ Fill(B, 27, 39, 0) /\ U16(B, 43) = 0)
     \cup Clause("head.counts", I32(B, 23) = MaxOf(0, Len(D) - 1) /\ I32(B, 39) = n)
     \cup Clause("head.extents", One(U16(B, 45), e.r - e.l) /\ One(U16(B, 47), e.b - e.t) /\ One(I16(B, 53), -e.l) /\ One(I16(B, 55), e.b))
     \cup Clause("head.last", One(I16(B, 49), lp[1]) /\ One(I16(B, 51), -lp[2]))
     \cup Clause("head.offsets", z >= 256 /\ z + 12 <= Len(B) /\ At0(B, z, <<127, 127, 2, 20, 0, 0>>)
          /\ Len(B) = z + 6 + 4 * MaxOf(21, n) + 6 /\ At0(B, Len(B) - 6, <<0, 255, 255, 255, 0, 1>>))
     \cup Clause("head.threads", (z >= 0 /\ z <= 1000000) => \A k \in 1..n : rgbs[k][1] >= 0 => At0(B, z + 2 + 4 * k, <<0>> \o rgbs[k]))

\* JEF: hoops by size, distances to four hoops
HoopFits(code, w, h) == \* w, h within a unit of the design's
  \E a \in (w - 1)..(w + 1), b \in (h - 1)..(h + 1) :
    code = (IF a < 500 /\ b < 500 THEN 1 ELSE IF a < 1260 /\ b < 1100 THEN 3 ELSE IF a < 1400 /\ b < 2000 THEN 2 ELSE IF a < 2000 /\ b < 2000 THEN 4 ELSE 0)
Hoop(B, o, hx, hy, e) ==
  LET dx == hx - ((e.r - e.l) \div 2)
      dy == hy - ((e.b - e.t) \div 2)
      q == [k \in 0..3 |-> I32(B, o + 4 * k)]
  IN \/ /\ dx > -1000 /\ dy > -1000 /\ One(q[0], dx) /\ One(q[1], dy) /\ One(q[2], dx) /\ One(q[3], dy) /\ \A k \in 0..3 : q[k] >= 0
     \/ /\ (dx < 1000 \/ dy < 1000) /\ \A k \in 0..3 : q[k] = -1
Jef(B, D) ==
  LET e == Ext(D)
      n == I32(B, 24)
      off == I32(B, 0)
  IN Clause("head.shape", I32(B, 4) = 20 /\ (\A k \in 8..21 : Digit(U8(B, k))) /\ At0(B, 22, <<0, 0>>))
     \cup Clause("head.offsets", n >= 0 /\ n < 2000 /\ off = 116 + 8 * n /\ off <= Len(B) /\ (n >= 0 /\ n < 2000 => \A k \in 0..(n - 1) : I32(B, 116 + 4 * n + 4 * k) = 13))
     \cup Clause("head.counts", /\ Len(B) - off = 2 * I32(B, 28)
          /\ n = (IF D = << >> THEN 0 ELSE 1 + Cnt_(D, {COLORCHANGE, STOP})))
     \cup Clause("head.extents", /\ \A k \in 0..3 : One(I32(B, 36 + 4 * k), (IF k % 2 = 0 THEN e.r - e.l ELSE e.b - e.t) \div 2)
          /\ HoopFits(I32(B, 32), (e.r - e.l) \div 1000, (e.b - e.t) \div 1000)
          /\ Hoop(B, 52, 550000, 550000, e) /\ Hoop(B, 68, 250000, 250000, e) /\ Hoop(B, 84, 700000, 1000000, e) /\ Hoop(B, 100, 700000, 1000000, e))

\* PEC at offset p; needed threads, thumbnails: one, then one per colour block
SewnBy == {STITCH, SEWTO, NEEDLEAT}
NeededThreads(D) == FoldLeft(LAMBDA a, s : IF s[3] \in SewnBy THEN [a EXCEPT !.need = MaxOf(@, a.k + 1)]
                                            ELSE IF s[3] = COLORCHANGE THEN [a EXCEPT !.k = @ + 1] ELSE a, [k |-> 0, need |-> 0], D).need
\* the design with its stops as repeated threads, and the number of threads
PecDesign(D, nthr) ==
  LET r == StopAsDup(D, [i \in 1..MaxOf(nthr, NeededThreads(D)) |-> i], COLORCHANGE)
  IN [q |-> r.q, n |-> MaxOf(Len(r.thr), NeededThreads(r.q)), thr |-> r.thr]
PecEnd(B, p, D) == p + 512 + U24(B, p + 514) + 228 * (IF D = << >> THEN 1 ELSE Cnt_(D, {COLORCHANGE}) + 2)
Pec(B, p, D, nthr) ==
  LET e == Ext(D)
      w == PecDesign(D, nthr)
      n == w.n
      len == U24(B, p + 514)
  IN Clause("head.shape", /\ At0(B, p, <<76, 65, 58>>) /\ U8(B, p + 19) = 13 /\ Fill(B, p + 20, p + 32, 32) /\ At0(B, p + 32, <<255, 0, 6, 38>>)
          /\ (IF n > 0 THEN Fill(B, p + 36, p + 48, 32) ELSE At0(B, p + 36, <<32, 32, 32, 32, 100, 32, 0, 32, 0, 32, 32, 32, 255>>))
          /\ Fill(B, p + 49 + n, p + 512, 32) /\ At0(B, p + 512, <<0, 0>>) /\ At0(B, p + 517, <<49, 255, 240>>) /\ U16(B, p + 524) = 480 /\ U16(B, p + 526) = 432)
     \cup Clause("head.counts", (n > 0 => U8(B, p + 48) = n - 1) /\ \A k \in 1..n : U8(B, p + 48 + k) \in 1..64)
     \cup Clause("head.extents", One(U16(B, p + 520), e.r - e.l) /\ One(U16(B, p + 522), e.b - e.t))
     \cup Clause("head.offsets", len >= 16 /\ p + 512 + len <= Len(B) /\ (D # << >> /\ D[Len(D)][3] = END => len >= 17 /\ U8(B, p + 511 + len) = 255))

\* --- PES ---
Str8(B, o) == o + 1 + U8(B, o)                         \* behind an 8-bit string
RECURSIVE Strs8(_, _, _)
Strs8(B, o, n) == IF n = 0 THEN o ELSE Strs8(B, Str8(B, o), n - 1)
RECURSIVE PesThreads(_, _, _)
PesThread(B, o) == Strs8(B, Str8(B, o) + 8, 3)
PesThreads(B, o, n) == IF n <= 0 \/ o > Len(B) THEN o ELSE PesThreads(B, PesThread(B, o), n - 1)
CEmbOne == <<7, 0, 67, 69, 109, 98, 79, 110, 101>>
CSewSeg == <<7, 0, 67, 83, 101, 119, 83, 101, 103>>
\* twice what a 32-bit float says, downwards
F32x2(B, o) ==
  LET e == 2 * (U8(B, o + 3) % 128) + (U8(B, o + 2) \div 128)
      m == 65536 * (U8(B, o + 2) % 128) + 256 * U8(B, o + 1) + U8(B, o) + 8388608
      v == IF e > 149 THEN 1000000 ELSE IF 149 - e > 23 THEN 0 ELSE m \div 2 ^ (149 - e)
  IN IF U8(B, o + 3) > 127 THEN -v ELSE v
\* the affine placement in the hoop: not turned, not scaled, the middle of the design in the middle of 1300 by 1800
PesPlaced(B, o, w, h) == LET two(v, x) == 1000 * v - x \in -2000..2000 IN
  /\ [k \in 0..3 |-> F32x2(B, o + 4 * k)] = [k \in 0..3 |-> IF k \in {0, 3} THEN 2 ELSE 0]
  /\ two(F32x2(B, o + 16), 2000000 - w) /\ two(F32x2(B, o + 20), 2000000 + h)
\* sections from o: [flag code count points]; log from where no 8003 follows
RECURSIVE PesSections(_, _, _)
PesSections(B, o, acc) ==
  LET n == U16(B, o + 4)
      z == o + 6 + 4 * n
      s == [flag |-> U16(B, o), code |-> U16(B, o + 2), pts |-> [k \in 1..n |-> <<I16(B, o + 2 + 4 * k), I16(B, o + 4 + 4 * k)>>]]
      next == [acc EXCEPT !.s = Append(@, s), !.o = z]
  IN IF z > Len(B) THEN [acc EXCEPT !.bad = TRUE]
     ELSE IF U16(B, z) = 32771 THEN PesSections(B, z + 2, next) ELSE next
\* what the blocks of the design are: <<flag, positions, changes of colour before>>
RECURSIVE PesBlocks(_, _, _, _, _)
PesBlocks(D, i, at, chg, out) ==
  IF i > Len(D) THEN out
  ELSE LET f == D[i][3]
           z == (CHOOSE k \in i..Len(D) + 1 : (k = Len(D) + 1 \/ D[k][3] # f) /\ \A j \in i..(k - 1) : D[j][3] = f) - 1
           pos(k) == <<D[k][1], D[k][2]>>
       IN IF f = STITCH THEN PesBlocks(D, z + 1, pos(z), chg, Append(out, <<0, [k \in 1..(z - i + 1) |-> pos(i + k - 1)], chg>>))
          ELSE IF f = JUMP THEN PesBlocks(D, z + 1, at, chg, Append(out, <<1, <<at, pos(z)>>, chg>>))
          ELSE PesBlocks(D, z + 1, at, IF f = COLORCHANGE THEN chg + z - i + 1 ELSE chg, out)
\* the colour of the k-th thread written (from 0), -1 where it is not known
PesColor(w, rgbs, k) == IF k + 1 \in DOMAIN w.thr /\ w.thr[k + 1] \in DOMAIN rgbs
                        THEN LET c == rgbs[w.thr[k + 1]] IN IF c[1] < 0 THEN -1 ELSE Th!Rgb(c[1], c[2], c[3]) ELSE -1
\* version 1 names entries of the fixed palette, version 6 threads of the file
PesCode(w, rgbs, v6, chg, code) ==
  LET c == PesColor(w, rgbs, chg)
  IN c < 0 \/ (IF v6 THEN code < w.n /\ PesColor(w, rgbs, code) \in {c, -1}
               ELSE code < Len(PecPalette) /\ Th!Nearest(PecPalette, c, Th!Entries(PecPalette), code + 1))
PesBlocksAt(B, o, D, w, rgbs, v6) == \* from CEmbOne: failing clauses and where it ends
  LET e == Ext(D)
      nsec == U16(B, o + 67)
      want == PesBlocks(D, 1, <<0, 0>>, 0, << >>)
      s0 == o + 82
      got == IF want = << >> THEN [s |-> << >>, o |-> s0, bad |-> FALSE] ELSE PesSections(B, s0, [s |-> << >>, o |-> s0, bad |-> FALSE])
      lg == U16(B, got.o)
      codes == [i \in DOMAIN got.s |-> got.s[i].code]
      turns == SelectSeq([i \in DOMAIN codes |-> i], LAMBDA i : i = 1 \/ codes[i] # codes[i - 1])
      z == got.o + 2 + 4 * lg
  IN [bad |-> Clause("head.shape", At0(B, o, CEmbOne) /\ At0(B, o + 69, <<255, 255, 0, 0>>) /\ At0(B, o + 73, CSewSeg) /\ At0(B, z, <<0, 0, 0, 0>>))
              \cup Clause("head.extents", One(U16(B, o + 55), e.r - e.l) /\ One(U16(B, o + 57), e.b - e.t) /\ PesPlaced(B, o + 25, e.r - e.l, e.b - e.t))
              \cup Clause("head.counts", ~got.bad /\ nsec = Len(got.s) /\ nsec = Len(want))
              \cup Clause("head.points", Len(got.s) = Len(want) => \A i \in DOMAIN want :
                    /\ got.s[i].flag = want[i][1] /\ Len(got.s[i].pts) = Len(want[i][2])
                    /\ \A k \in DOMAIN want[i][2] : Len(got.s[i].pts) >= k => One(got.s[i].pts[k][1], want[i][2][k][1] - e.l) /\ One(got.s[i].pts[k][2], want[i][2][k][2] - e.b))
              \cup Clause("head.colors", Len(got.s) = Len(want) => \A i \in DOMAIN want : PesCode(w, rgbs, v6, want[i][3], codes[i]))
              \cup Clause("head.log", lg = Len(turns) /\ \A k \in DOMAIN turns : U16(B, got.o + 4 * k - 2) = turns[k] - 1 /\ U16(B, got.o + 4 * k) = codes[turns[k]]),
      next |-> z + 4, log |-> lg]
Pes(B, D0, nthr, v, rgbs) ==
  LET w == PecDesign(D0, nthr)
      D == w.q
      p == I32(B, 8)
      v6 == v \in {"6", "6t"}
      h == IF v6 THEN 16 ELSE 12
      s == IF v6 THEN Strs8(B, 16, 5) ELSE 0                         \* behind the five texts
      ct == s + 36 + 1 + 24 + 6                                        \* the number of threads
      z == IF v6 THEN PesThreads(B, ct + 2, U16(B, ct)) ELSE 16       \* the number of blocks
      b == PesBlocksAt(B, z + 6, D, w, rgbs, v6)
      full == v \in {"1", "6"} /\ D # << >>
      q == PecEnd(B, p, D)
  IN Clause("head.shape", At0(B, 0, <<35, 80, 69, 83, 48, 48>> \o (IF v6 THEN <<54, 48>> ELSE <<48, 49>>)))
     \cup (IF v6 THEN Clause("head.shape", U16(B, 12) = 1 /\ At0(B, 14, <<48, 50>>) /\ Fill(B, s, s + 4, 0))
                      \cup Clause("head.counts", U16(B, ct) = w.n) ELSE {})
     \cup Clause("head.counts", v = "1t" \/ U16(B, z) = (IF full THEN 1 ELSE 0))
     \cup (IF full THEN b.bad \cup Clause("head.shape", At0(B, z + 2, <<255, 255, 0, 0>>)) ELSE {})
     \cup Clause("head.offsets", p = (CASE v = "1t" -> 22
                                        [] v = "6t" -> z + 2 + 9
                                        [] ~full -> z + 6
                                        [] v = "6" -> b.next + 8 + 8 * b.log
                                        [] OTHER -> b.next))
     \cup (IF v = "6" /\ full THEN Clause("head.log", \A k \in 0..(b.log - 1) : I32(B, b.next + 8 + 8 * k) = k /\ I32(B, b.next + 12 + 8 * k) = 0) ELSE {})
     \cup (IF p >= 12 /\ p < Len(B) THEN Pec(B, p, D, w.n) ELSE {"head.offsets"})
     \cup (IF ~v6 THEN Clause("head.end", q = Len(B))
           ELSE IF v = "6t" THEN Clause("head.end", Len(B) = q + 130 /\ U8(B, q) = 255 /\ Fill(B, q + 1, q + 128, 32))
           ELSE Clause("head.end", Len(B) = q + 128 + 147 * w.n + 2 /\ (w.n > 0 => At0(B, q, SubSeq(B, p + 49, p + 49 + w.n)) /\ Fill(B, q + w.n + 1, q + 128, 32)))
                \cup Clause("head.threads", \A k \in 0..(w.n - 1) : LET c == PesColor(w, rgbs, k) IN c < 0 \/ (At0(B, q + 128 + 144 * w.n + 3 * k, <<Th!B(c), Th!G(c), Th!R(c)>>))))
PecFile(B, D, nthr) ==
  LET w == PecDesign(D, nthr)
  IN Clause("head.shape", At0(B, 0, <<35, 80, 69, 67, 48, 48, 48, 49>>)) \cup Pec(B, 8, w.q, w.n)
     \cup Clause("head.end", PecEnd(B, 8, w.q) = Len(B))

\* --- VP3 ---
Vp3Split(D) == \* blocks begin at every colour change
  LET starts == <<1>> \o SelectSeq([i \in DOMAIN D |-> i], LAMBDA i : D[i][3] = COLORCHANGE)
  IN [k \in DOMAIN starts |-> SubSeq(D, starts[k], IF k = Len(starts) THEN Len(D) ELSE starts[k + 1] - 1)]
Vp3File(B, D, nthr) ==
  LET v == Vp3Parse(B)
      e == Ext(D)
      bl == Vp3Split(D)
      cent(a, m) == Near(10 * a, m, 1000)                       \* hundredths of a unit
      hw == (e.r - e.l) \div 2
      hh == (e.b - e.t) \div 2
      first(i) == IF i = 1 \/ bl[i] = << >> THEN <<0, 0>> ELSE bl[i][1]
      last(i) == IF bl[i] = << >> THEN <<0, 0>> ELSE bl[i][Len(bl[i])]
  IN {"head.vp3." \o x : x \in v.errs}
     \cup Clause("head.counts", v.total = Len(D) - Cnt_(D, {END}) /\ v.colors = Len(bl) /\ v.ncolors = Len(bl) /\ Len(v.blocks) = Len(bl) /\ v.designs = 1)
     \cup Clause("head.extents", /\ Near(v.ext[1], e.r, 1000) /\ Near(v.ext[2], e.t, 1000) /\ Near(v.ext[3], e.l, 1000) /\ Near(v.ext[4], e.b, 1000)
          /\ Near(v.cx, (e.r + e.l) \div 2, 1000) /\ Near(v.cy, (e.b + e.t) \div 2, 1000)
          /\ cent(v.half[1], -hw) /\ cent(v.half[2], hw) /\ cent(v.half[3], -hh) /\ cent(v.half[4], hh) /\ cent(v.half[5], 2 * hw) /\ cent(v.half[6], 2 * hh))
     \cup Clause("head.blocks", Len(v.blocks) = Len(bl) => \A i \in DOMAIN bl :
          /\ Near(v.blocks[i].sx, first(i)[1], 1000) /\ Near(v.blocks[i].sy, first(i)[2], 1000)
          /\ Near(v.blocks[i].wx, last(i)[1] - first(i)[1], 1000) /\ Near(v.blocks[i].wy, last(i)[2] - first(i)[2], 1000))

\* --- PMV, INF, EDR, COL ---
PmvPoints(D) == MinOf(100, Cnt_(D, {STITCH, JUMP}))
\* the points themselves: x as steps of 0.25 mm from point to point, y around the middle of the
\* design and scaled down to fit when it is higher than 7 mm
PmvDraws(B, D) ==
  LET Pm == SubSeq(SelectSeq(D, LAMBDA d : d[3] \in {STITCH, JUMP}), 1, PmvPoints(D))
      dx(k) == LET v == U8(B, 102 + 2 * k) IN IF v >= 32 THEN v - 64 ELSE v
      dy(k) == LET v == U8(B, 103 + 2 * k) IN IF v >= 16 THEN v - 32 ELSE v
      ys == {-Pm[k][2] : k \in DOMAIN Pm}
      s == Min(ys) + Max(ys)
      h == Max(ys) - Min(ys)
      step(k) == Pm[k][1] - (IF k = 1 THEN 0 ELSE Pm[k - 1][1])
      at == FoldLeft(LAMBDA a, k : Append(a, (IF a = << >> THEN 0 ELSE a[Len(a)]) + dx(k)), << >>, [k \in DOMAIN Pm |-> k])
  IN (\A k \in DOMAIN Pm : Abs(step(k)) <= 75000 /\ Abs(Pm[k][2]) <= 30000000) =>
       \A k \in DOMAIN Pm :
         LET a == -2 * Pm[k][2] - s
         IN /\ Abs(5000 * at[k] - 2 * Pm[k][1]) <= 2510
            /\ IF h > 70000 THEN Abs(dy(k) * h - 14 * a) <= (h \div 2) + 1000 ELSE Abs(5000 * dy(k) - a) <= 2510
Pmv(B, D) ==
  LET n == U16(B, 100)
      t == 102 + 2 + 2 * n                                     \* behind the points
      l == t + 4 + 16 + 4                                       \* the length table
      w == l + 2 + 4 * U8(B, l + 1)                             \* the width table
      z == w + 2 + 4 * U8(B, w + 1)
  IN Clause("head.shape", At0(B, 0, <<35, 80, 77, 86, 48, 48, 48, 49>>) /\ Fill(B, 8, 44, 46) /\ U16(B, t) = 0 /\ U16(B, t + 2) = 256)
     \cup Clause("head.counts", n = PmvPoints(D) /\ U16(B, 102) = 2 * n /\ U8(B, l) = U8(B, l + 1) - 1 /\ U8(B, w) = U8(B, w + 1) - 1)
     \cup Clause("head.end", Len(B) = z + 18 /\ U16(B, z) = 18 /\ Fill(B, z + 2, z + 18, 0))
     \cup Clause("head.points", n = PmvPoints(D) => PmvDraws(B, D))
RECURSIVE InfRecords(_, _, _, _)
B16(B, o) == V16(B, o + 1)
InfRecords(B, o, i, rgbs) ==
  IF i > Len(rgbs) THEN Clause("head.end", o = Len(B))
  ELSE LET n == B16(B, o)
           zs == {k \in (o + 9)..MinOf(o + n - 1, Len(B)) : U8(B, k) = 0}
       IN Clause("head.lengths", n >= 11 /\ o + n <= Len(B) /\ Cardinality(zs) >= 2 /\ U8(B, o + n - 1) = 0)
          \cup Clause("head.order", B16(B, o + 2) = i - 1 /\ B16(B, o + 7) = i)
          \cup Clause("head.threads", At0(B, o + 4, rgbs[i]))
          \cup (IF n < 11 THEN {} ELSE InfRecords(B, o + n, i + 1, rgbs))
Inf(B, rgbs) ==
  Clause("head.shape", V32(B, 1) = 1 /\ V32(B, 5) = 8) \cup Clause("head.lengths", V32(B, 9) = Len(B) - 12)
  \cup Clause("head.counts", V32(B, 13) = Len(rgbs)) \cup InfRecords(B, 16, 1, rgbs)
Edr(B, rgbs) == Clause("head.end", Len(B) = 4 * Len(rgbs)) \cup Clause("head.threads", \A k \in DOMAIN rgbs : At0(B, 4 * k - 4, rgbs[k] \o <<0>>))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Col(B, rgbs) ==
  LET line(i) == Dec(i - 1) \o <<44>> \o Dec(rgbs[i][1]) \o <<44>> \o Dec(rgbs[i][2]) \o <<44>> \o Dec(rgbs[i][3]) \o <<13, 10>>
  IN Clause("head.counts", B = FoldLeft(LAMBDA a, i : a \o line(i), Dec(Len(rgbs)) \o <<13, 10>>, [i \in DOMAIN rgbs |-> i]))

\* --- counts and extents as text (G-code comments, CSV rows): <<name, value in thousandths>> in order ---
TextRows(R, D, unit) ==
  LET e == Ext(D)
      val(nm) == {R[i][2] : i \in {i \in DOMAIN R : R[i][1] = nm}}
      is(nm, v) == val(nm) = {v}
      nearly(nm, v) == Cardinality(val(nm)) = 1 /\ \A x \in val(nm) : Near(unit * x, v, 5)
      flags == {D[i][3] : i \in DOMAIN D}
  IN Clause("head.counts", is("STITCH_COUNT", 1000 * Len(D)) /\ is("THREAD_COUNT", 1000 * Cnt_(D, {COLORCHANGE})))
     \cup Clause("head.commands", \A f \in flags : is("COMMAND " \o ToString(f), 1000 * Cnt_(D, {f})))
     \cup Clause("head.extents", nearly("EXTENTS_LEFT", e.l) /\ nearly("EXTENTS_TOP", e.t) /\ nearly("EXTENTS_RIGHT", e.r) /\ nearly("EXTENTS_BOTTOM", e.b)
          /\ nearly("EXTENTS_WIDTH", e.r - e.l) /\ nearly("EXTENTS_HEIGHT", e.b - e.t))
=============================================================================
