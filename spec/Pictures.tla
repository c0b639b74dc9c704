------------------------------ MODULE Pictures ------------------------------
(* What pictures and text exports of a design show.                           *)
EXTENDS Headers, Raster
XY(s) == <<s[1], s[2]>>
\* stitch blocks as <<thread number, positions>>
Sewn_(q) == LET sb == StitchBlocks(q) IN [n \in DOMAIN sb |-> <<sb[n][3], [k \in 1..(sb[n][2] - sb[n][1] + 1) |-> XY(q[sb[n][1] + k - 1])]>>]
\* the colour of thread k, -1 when it is a filler
ColorOf(rgbs, k) == IF k \in DOMAIN rgbs THEN rgbs[k] ELSE -1
Close(a, b, tol) == Abs(a - b) <= tol

(* --- SVG: one path per block ------------------------------------------------- *)
Svg(q, rgbs, S, tol) ==
  LET w == Sewn_(q)
      e == Ext(q)
      rgb(n) == ColorOf(rgbs, w[n][1])
  IN Clause("svg.blocks", Len(S.paths) = Len(w))
     \cup Clause("svg.color", Len(S.paths) = Len(w) => \A n \in DOMAIN w : rgb(n) = -1 \/ S.paths[n].rgb = rgb(n))
     \cup Clause("svg.points", Len(S.paths) = Len(w) => \A n \in DOMAIN w :
           /\ Len(S.paths[n].pts) = Len(w[n][2])
           /\ \A k \in DOMAIN w[n][2] : Close(S.paths[n].pts[k][1], w[n][2][k][1], tol) /\ Close(S.paths[n].pts[k][2], w[n][2][k][2], tol))
     \cup Clause("svg.canvas", /\ Close(S.box[1], e.l, tol) /\ Close(S.box[2], e.t, tol)
           /\ Close(S.box[3], e.r - e.l, 2 * tol) /\ Close(S.box[4], e.b - e.t, 2 * tol)
           /\ Close(S.size[1], e.r - e.l, 2 * tol) /\ Close(S.size[2], e.b - e.t, 2 * tol))

(* --- text: one line per command -------------------------------------------- *)
MimicCode(f) == CASE f = STITCH -> 0 [] f = JUMP -> 1 [] f = TRIM -> 2 [] f \in {STOP, COLORCHANGE, NEEDLESET} -> 4
                  [] f \in {SEQMODE, SEQEJECT} -> 8 [] f = END -> 16 [] OTHER -> -1
ChangesTo(q, i) == Cardinality({k \in 1..i : q[k][3] = COLORCHANGE})
\* a needle set or a colour break leaves open which thread follows
Plain(q) == \A i \in DOMAIN q : q[i][3] \notin {NEEDLESET, COLORBREAK}
Txt(q, rgbs, rows, mimic, named, tol) ==
  LET at == IF mimic THEN SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : MimicCode(q[i][3]) >= 0) ELSE [i \in DOMAIN q |-> i]
      u == IF mimic THEN 500 ELSE 50                        \* half of the last digit
      same == Len(rows) = Len(at)
  IN Clause("txt.lines", same)
     \cup Clause("txt.positions", same => \A k \in DOMAIN at : Close(rows[k].x, q[at[k]][1], u + tol) /\ Close(rows[k].y, q[at[k]][2], u + tol))
     \cup Clause("txt.commands", same => \A k \in DOMAIN at : /\ rows[k].flags = (IF mimic THEN MimicCode(q[at[k]][3]) ELSE q[at[k]][3])
                                                             /\ (~mimic => rows[k].cmd = named[q[at[k]][3]]))
     \cup Clause("txt.color", same /\ Plain(q) => \A k \in DOMAIN at :
           IF mimic THEN rows[k].color = ChangesTo(q, at[k])
           ELSE LET c == ColorOf(rgbs, ChangesTo(q, at[k]) + 1) IN c = -1 \/ rows[k].color = c)

(* --- PNG: lines between the stitches of a block, later ones above ---------------- *)
Red(c) == (c \div 65536) % 256
Green(c) == (c \div 256) % 256
Blue(c) == c % 256
\* near-black threads are shown as dark grey
Depth(c) == LET m == Red(c) \div 2 IN (((512 + m) * Red(c) * Red(c)) \div 256) + 4 * Green(c) * Green(c) + (((767 - m) * Blue(c) * Blue(c)) \div 256)
ShownAs(c) == IF Depth(c) < 225 THEN <<35, 35, 35>> ELSE <<Red(c), Green(c), Blue(c)>>
\* p, painted with colour c, shaded when the picture is fancy
IsColor(p, c, fancy) ==
  LET s == ShownAs(c)
  IN p[4] > 0 /\ IF ~fancy THEN <<p[1], p[2], p[3]>> = s
                 ELSE /\ \A k \in 1..3 : p[k] <= s[k] /\ 100 * (p[k] + 1) >= 65 * s[k]
                      /\ \A j, k \in 1..3 : Abs(p[j] * s[k] - p[k] * s[j]) <= MaxR(s[j], s[k])
\* G: w h, pal the pixels' values, pix rows of indices into it, line width, bg << >> or its colour
\* positions are whole units
Png(q, rgbs, G, lw, fancy, bg) ==
  LET e == Ext(q)
      blocks == Sewn_(q)
      pos(s) == <<(s[1] - e.l) \div 1000 + 1, (s[2] - e.t) \div 1000 + 1>>
      segs == FoldLeft(LAMBDA a, n : a \o [k \in 1..(Len(blocks[n][2]) - 1) |-> [c |-> ColorOf(rgbs, blocks[n][1]), a |-> pos(blocks[n][2][k]), b |-> pos(blocks[n][2][k + 1])]],
                       << >>, [n \in DOMAIN blocks |-> n])
      back == IF bg = << >> THEN <<0, 0, 0, 0>> ELSE <<Red(bg[1]), Green(bg[1]), Blue(bg[1]), 255>>
      val(p) == G.pal[G.pix[p[2] + 1][p[1] + 1]]
      in(p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < G.w /\ p[2] < G.h
      thick == [n \in DOMAIN segs |-> Thick(segs[n].a, segs[n].b, lw \div 2 + 1)]
      painted == {p \in (0..(G.w - 1)) \X (0..(G.h - 1)) : val(p) # back}
      is(p, n) == segs[n].c = -1 \/ IsColor(val(p), segs[n].c, fancy)
      covers == G.w > (e.r - e.l) \div 1000 + 1 /\ G.h > (e.b - e.t) \div 1000 + 1
  IN Clause("png.canvas", covers)
     \* every stitch is seen, unless a later one of another colour passes close by
     \cup Clause("png.lines", covers /\ lw > 0 => \A n \in DOMAIN segs : \A i \in 0..Steps(segs[n].a, segs[n].b) :
            \E p \in Nearest(segs[n].a, segs[n].b, i) : is(p, n) \/ \E m \in (n + 1)..Len(segs) : p \in thick[m] /\ is(p, m))
     \* and nothing else is
     \cup Clause("png.only", \A p \in painted : \E n \in DOMAIN segs : p \in thick[n] /\ is(p, n))
     \* lines have their width
     \cup Clause("png.width", covers => \A n \in DOMAIN segs : LET k == Steps(segs[n].a, segs[n].b) IN k > 0 /\ (segs[n].a[1] = segs[n].b[1] \/ segs[n].a[2] = segs[n].b[2]) =>
            LET m == k \div 2
                flat == segs[n].a[2] = segs[n].b[2]
                c == CHOOSE p \in Nearest(segs[n].a, segs[n].b, m) : TRUE
                line == {p \in Around(c, lw) : IF flat THEN p[1] = c[1] ELSE p[2] = c[2]}
                half == {p \in line : AbsR(p[1] - c[1]) + AbsR(p[2] - c[2]) <= (lw - 1) \div 2}
            IN \A p \in half : in(p) => p \in painted)

(* --- PEC thumbnails: 48 by 38 dots within a frame -------------------------------- *)
FrameEdge(y) == CASE y \in {1, 36} -> 4 [] y \in {2, 35} -> 3 [] y \in {3, 34} -> 2 [] OTHER -> 1
InFrame(x, y) == y \in 1..36 /\ (IF y \in {1, 36} THEN x \in 4..43 ELSE x \in {FrameEdge(y), 47 - FrameEdge(y)})
\* dots of position v on an axis: middle c (doubled), scaled by num/den, `half` dots to the middle
Dots(v, c2, num, den, half) ==
  LET a == (2 * v - c2) * num + 2 * half * den
  IN IF a % (2 * den) = 0 THEN {a \div (2 * den), a \div (2 * den) - 1} ELSE {a \div (2 * den)}
ThumbDots(e, pts, margin) == \* for each point the dots it may be
  LET w == IF e.r = e.l THEN 1000 ELSE e.r - e.l
      h == IF e.b = e.t THEN 1000 ELSE e.b - e.t
      \* what scales least: (48 - margin) / w or (38 - margin) / h
      u == w \div 1000 
      v == h \div 1000
      wide == (48 - margin) * v <= (38 - margin) * u
      num == IF wide THEN 48 - margin ELSE 38 - margin
      den == IF wide THEN u ELSE v
  IN [k \in DOMAIN pts |-> Dots(pts[k][1] \div 1000, (e.l + e.r) \div 1000, num, den, 24) \X Dots(pts[k][2] \div 1000, (e.t + e.b) \div 1000, num, den, 19)]
Dot(B, o, x, y) == (U8(B, o + 6 * y + (x \div 8)) \div (2 ^ (x % 8))) % 2 = 1
\* a thumbnail at o: the frame, the points and nothing else
Thumb(B, o, e, pts, margin) ==
  LET d == ThumbDots(e, pts, margin)
      may == UNION {d[k] : k \in DOMAIN d}
  IN /\ \A k \in DOMAIN d : \E p \in d[k] : p[1] \in 0..47 /\ p[2] \in 0..37 /\ Dot(B, o, p[1], p[2])
     /\ \A y \in 0..37 : \A x \in 0..47 : IF InFrame(x, y) THEN Dot(B, o, x, y) ELSE Dot(B, o, x, y) => <<x, y>> \in may
\* PEC at p: an overview, then one of each colour block
Thumbs(B, p, D) ==
  LET o == p + 512 + U24(B, p + 514)
      e == Ext(D)
      cb == ColorBlocks(D)
      all == SelectSeq(D, LAMBDA s : s[3] = STITCH)
      of(n) == SelectSeq(SubSeq(D, cb[n][1], cb[n][2]), LAMBDA s : s[3] = STITCH)
  IN Clause("thumb.all", o + 228 <= Len(B) /\ Thumb(B, o, e, all, 4))
     \cup Clause("thumb.blocks", o + 228 * (Len(cb) + 1) <= Len(B) /\ \A n \in DOMAIN cb : Thumb(B, o + 228 * n, e, of(n), 5))
\* what a reader makes of them
ThumbsRead(B, p, read, n) ==
  LET o == p + 512 + U24(B, p + 514)
  IN Clause("thumb.read", Len(read) >= n + 1 /\ \A k \in 0..n :
        /\ read[k + 1].bytes = SubSeq(B, o + 228 * k + 1, o + 228 * (k + 1)) /\ read[k + 1].stride = 6
        /\ Len(read[k + 1].text) = 38
        /\ \A y \in 0..37 : read[k + 1].text[y + 1] = [x \in 1..48 |-> IF Dot(B, o + 228 * k, x - 1, y) THEN 35 ELSE 32])
=============================================================================
