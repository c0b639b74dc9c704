--------------------------------- MODULE Vp3 ---------------------------------
(* The nested VP3 file: blocks 00 02 00 / 00 03 00 / 00 05 00 / 00 01 00,     *)
(* each with a 32-bit length of what follows.  Parse never fails: wrong or    *)
(* missing bytes are collected in `errs`.                                     *)
EXTENDS Formats

Byte(B, i) == IF i \in 1..Len(B) THEN B[i] ELSE 0        \* i counts from 1
V16(B, i) == Byte(B, i) * 256 + Byte(B, i + 1)
V32(B, i) == S8(Byte(B, i)) * 16777216 + Byte(B, i + 1) * 65536 + Byte(B, i + 2) * 256 + Byte(B, i + 3)
V24(B, i) == Byte(B, i) * 65536 + Byte(B, i + 1) * 256 + Byte(B, i + 2)
Is(B, i, w) == \A k \in DOMAIN w : Byte(B, i + k - 1) = w[k]
Str(B, i) == SubSeq(B, i + 2, MinOf(Len(B), i + 1 + V16(B, i)))

\* where the string at i ends
After(B, i) == i + 2 + V16(B, i)

\* stitches: 1-byte pairs, 80 01 long, 80 03 trim, 80 02 nothing
V3Stitches(B, i, e, x0, y0, none) ==
  LET to(s, n, dx, dy) == [i |-> s.i + n, x |-> s.x + dx, y |-> s.y + dy, out |-> Append(s.out, <<s.x + dx, s.y + dy, STITCH, 0>>)]
      step(s, k) ==
        IF s.i # k \/ k + 1 > e THEN s
        ELSE IF B[k] # 128 THEN to(s, 2, 1000 * S8(B[k]), 1000 * S8(B[k + 1]))
        ELSE IF B[k + 1] = 1
             THEN IF k + 5 > e THEN s ELSE to(s, 8, 1000 * S16(V16(B, k + 2)), 1000 * S16(V16(B, k + 4)))
        ELSE IF B[k + 1] = 3 THEN [s EXCEPT !.i = k + 2, !.out = Append(@, <<s.x, s.y, TRIM, 0>>)]
        ELSE [s EXCEPT !.i = k + 2]
  IN FoldLeft(step, [i |-> i, x |-> x0, y |-> y0, out |-> none], [k \in 1..MaxOf(0, e - i) |-> i + k - 1]).out

\* one thread: colours, type, weight, catalogue number, description, brand
RECURSIVE V3Colors(_, _, _)
V3Colors(B, i, n) == IF n = 0 THEN i ELSE V3Colors(B, i + 6, n - 1)
V3Thread(B, i) ==
  LET n == Byte(B, i)
      t == V3Colors(B, i + 2, n)
      s1 == t + 2
      s2 == After(B, s1)
      s3 == After(B, s2)
  IN [color |-> IF n = 0 THEN 0 ELSE V24(B, V3Colors(B, i + 2, n - 1)), cat |-> Str(B, s1), desc |-> Str(B, s2),
      brand |-> Str(B, s3), next |-> After(B, s3)]

Need(ok, what) == IF ok THEN {} ELSE {what}
RECURSIVE V3Blocks(_, _, _, _, _, _)
V3Blocks(B, i, n, cx, cy, acc) ==
  IF n = 0 \/ i > Len(B) THEN [acc EXCEPT !.next = i, !.missing = n]
  ELSE
  LET e == i + 7 + V32(B, i + 3)                 \* first byte behind the colour block
      sx == 10 * V32(B, i + 7)
      sy == -10 * V32(B, i + 11)
      th == V3Thread(B, i + 15)
      p == th.next
      q == p + 8
      se == q + 7 + V32(B, q + 3)                \* first byte behind the stitches block
      x0 == sx + cx
      y0 == sy + cy
      sewn == V3Stitches(B, q + 10, MinOf(MinOf(se, e) - 1, Len(B)), x0, y0, << >>)
      here == IF acc.blocks = << >> THEN acc.q
              ELSE Append(acc.q, <<acc.x, acc.y, COLORCHANGE, 0>>)
      lx == IF sewn = << >> THEN x0 ELSE sewn[Len(sewn)][1]
      ly == IF sewn = << >> THEN y0 ELSE sewn[Len(sewn)][2]
      moved == IF acc.x # x0 \/ acc.y # y0 THEN Append(here, <<x0, y0, JUMP, 0>>) ELSE here
      bad == Need(Is(B, i, <<0, 5, 0>>), "block.tag")
             \cup Need(e >= i + 15 /\ e <= Len(B) + 1, "block.length")
             \cup Need(Is(B, q, <<0, 1, 0>>), "stitches.tag")
             \cup Need(se + 1 = e, "stitches.length")
             \cup Need(Is(B, q + 7, <<10, 246, 0>>), "stitches.mark")
  IN IF e <= i THEN [acc EXCEPT !.errs = @ \cup bad, !.next = i, !.missing = n]
     ELSE V3Blocks(B, e, n - 1, cx, cy,
            [acc EXCEPT !.q = moved \o sewn, !.x = lx, !.y = ly, !.errs = @ \cup bad,
                        !.blocks = Append(@, [thread |-> th, sx |-> x0, sy |-> y0, n |-> Len(sewn),
                                              wx |-> 10 * V32(B, p), wy |-> -10 * V32(B, p + 4), lx |-> lx, ly |-> ly])])

Vp3Parse(B) ==
  LET p0 == After(B, 7)                         \* behind %vsm%\0 and the producer
      e2 == p0 + 7 + V32(B, p0 + 3)
      g == After(B, p0 + 7)                     \* behind the settings string: extents
      d == g + 16 + 4 + 5                       \* design block
      e3 == d + 7 + V32(B, d + 3)
      cx == 10 * V32(B, d + 7)
      cy == -10 * V32(B, d + 11)
      s1 == After(B, d + 15 + 3 + 24)
      s2 == After(B, s1 + 24)
      n == V16(B, s2)
      acc == V3Blocks(B, s2 + 2, n, cx, cy,
                      [q |-> << >>, x |-> 0, y |-> 0, errs |-> {}, blocks |-> << >>, next |-> 0, missing |-> 0])
  IN [q |-> acc.q, blocks |-> acc.blocks, cx |-> cx, cy |-> cy,
      ext |-> <<10 * V32(B, g), -10 * V32(B, g + 4), 10 * V32(B, g + 8), -10 * V32(B, g + 12)>>,
      total |-> V32(B, g + 16), colors |-> Byte(B, g + 21), designs |-> Byte(B, g + 24), ncolors |-> n,
      half |-> [k \in 1..6 |-> V32(B, d + 14 + 4 * k)],
      errs |-> acc.errs
        \cup Need(Is(B, 1, <<37, 118, 115, 109, 37, 0>>), "magic")
        \cup Need(Is(B, p0, <<0, 2, 0>>), "file.tag")
        \cup Need(e2 = Len(B) + 1, "file.length")
        \cup Need(Is(B, d, <<0, 3, 0>>), "design.tag")
        \cup Need(e3 = Len(B) + 1, "design.length")
        \cup Need(Is(B, s1 + 18, <<120, 120, 80, 80, 1, 0>>), "design.mark")
        \cup Need(acc.missing = 0 /\ acc.next = Len(B) + 1, "blocks.end")
        \cup Need(Byte(B, g + 21) = n, "colors.twice")]

\* what a VP3 file shows of a low-level design: stitches, trims, changes
Vp3Seen(q) == SelectSeq(q, LAMBDA s : s[3] \in {STITCH, TRIM, COLORCHANGE})
Vp3Written(q) ==
  LET e == {i \in DOMAIN q : q[i][3] = END}
      u == IF e = {} THEN q ELSE SubSeq(q, 1, Min(e) - 1)
      v == [i \in DOMAIN u |-> <<u[i][1], u[i][2], u[i][3], 0>>]
  IN Vp3Seen(v) \o (IF e = {} THEN << >> ELSE << <<0, 0, TRIM, 0>> >>)
=============================================================================
