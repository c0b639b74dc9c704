-------------------------------- MODULE Loads --------------------------------
(* Whole files as they load: commands, threads with their texts, metadata.      *)
(* A text is a list of code points, [] when absent or empty.  A thread is       *)
(* <<rgb, description, catalog number, details, brand, chart, weight>>; one of  *)
(* a fixed palette has <<-1, entry>> for a description.                         *)
EXTENDS Vp3, Post, Palettes
Th == INSTANCE Threads

Zero(B, i) == Byte(B, i + 1)                                  \* i counts from 0
Le16(B, i) == Zero(B, i) + 256 * Zero(B, i + 1)
Le24(B, i) == Le16(B, i) + 65536 * Zero(B, i + 2)
Be16(B, i) == 256 * Zero(B, i) + Zero(B, i + 1)
Be24(B, i) == 65536 * Zero(B, i) + Be16(B, i + 1)
Part(B, i, n) == SubSeq(B, i + 1, MinOf(Len(B), i + n))

(* --- text ------------------------------------------------------------------ *)
Bad == <<-2>>
\* utf8 bytes as code points; Bad when they are not utf8
RECURSIVE Utf8_(_, _, _)
Utf8_(b, i, out) ==
  LET n == IF b[i] < 128 THEN 0 ELSE IF b[i] \in 194..223 THEN 1 ELSE IF b[i] \in 224..239 THEN 2 ELSE IF b[i] \in 240..244 THEN 3 ELSE -1
      v == FoldLeft(LAMBDA a, k : 64 * a + (b[i + k] % 64), b[i] % (CASE n = 0 -> 128 [] n = 1 -> 32 [] n = 2 -> 16 [] OTHER -> 8), [k \in 1..n |-> k])
  IN IF i > Len(b) THEN out
     ELSE IF n < 0 \/ i + n > Len(b) \/ \E k \in 1..n : b[i + k] \notin 128..191 THEN Bad
     ELSE IF (n = 2 /\ (v < 2048 \/ v \in 55296..57343)) \/ (n = 3 /\ (v < 65536 \/ v > 1114111)) THEN Bad
     ELSE Utf8_(b, i + n + 1, Append(out, v))
Utf8(b) == IF b = << >> THEN << >> ELSE Utf8_(b, 1, << >>)
OrNone(t) == IF t = Bad THEN << >> ELSE t
Blank == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160}
Stripped(t) == LET k == {i \in DOMAIN t : t[i] \notin Blank} IN IF k = {} THEN << >> ELSE SubSeq(t, Min(k), Max(k))
Meta_(key, t) == IF t \in {<< >>, Bad} THEN {} ELSE {<<key, t>>}

(* --- PEC blocks and PES files ---------------------------------------------- *)
Palette_(name, k) == LET p == Palette(name) n == k % Len(p) IN <<MaxOf(0, p[n + 1]), <<-1, n>>, << >>, << >>, << >>, << >>, << >>>>
\* which thread each colour of a PEC block is: the threads the file lists, one for each colour; or, when
\* there are fewer of them, one for each different palette entry in order of appearance
PecThreads(idx, chart) ==
  IF chart = << >> THEN [i \in DOMAIN idx |-> Palette_("pec", idx[i])]
  ELSE IF Len(chart) >= Len(idx) THEN chart
  ELSE LET e(i) == idx[i] % 65
           new == SelectSeq([i \in DOMAIN idx |-> i], LAMBDA i : \A j \in 1..(i - 1) : e(j) # e(i))
           nth(i) == CHOOSE k \in DOMAIN new : e(new[k]) = e(i)
       IN [i \in DOMAIN idx |-> IF nth(i) <= Len(chart) THEN chart[nth(i)] ELSE Palette_("pec", idx[i])]
\* a PEC block at offset o: label, thumbnail size, colours, stitches, thumbnails
PecLoad(B, o, chart) ==
  LET label == Utf8(Part(B, o + 3, 16))
      stride == Zero(B, o + 34)
      high == Zero(B, o + 35)
      n == (Zero(B, o + 48) + 1) % 256
      idx == Part(B, o + 49, n)
      thr == PecThreads(idx, chart)
      end == o + 514 + Le24(B, o + 514) - 2
      q == Decode("pec", Part(B, o + 528, MaxOf(0, end + 1 - (o + 528))), 0, 0, << >>)
      size == stride * high
      one(k) == <<Part(B, end + size * k, size), stride, IF k \in DOMAIN thr THEN thr[k][1] ELSE -1>>
      d == DupAsStop(q, thr)
  IN [q |-> d.q, thr |-> d.thr, ext |-> IF label = Bad THEN {} ELSE {<<"Name", Stripped(label)>>}, gfx |-> [k \in 1..(n + 1) |-> one(k - 1)]]
\* a text with its length in one byte before it
After8(B, o) == o + 1 + Zero(B, o)
Text8(B, o) == Utf8(Part(B, o + 1, Zero(B, o)))
PesMeta(B) ==       \* name, category, author, keywords, comments
  LET o(k) == FoldLeft(LAMBDA a, i : After8(B, a), 16, [i \in 1..k |-> i])
      key == <<"name", "category", "author", "keywords", "comments">>
  IN [ext |-> UNION {Meta_(key[k], Text8(B, o(k - 1))) : k \in 1..5}, next |-> o(5)]
PesThread(B, o) ==
  LET c == After8(B, o)
      d == c + 8
      b == After8(B, d)
      h == After8(B, b)
  IN [t |-> <<Be24(B, c), OrNone(Text8(B, d)), OrNone(Text8(B, o)), << >>, OrNone(Text8(B, b)), OrNone(Text8(B, h)), << >>>>, next |-> After8(B, h)]
\* what a header of this version says: bytes between the texts, their keys
PesHeader(B, version) ==
  LET m == PesMeta(B)
      hoop == version \in {90, 100}
      o0 == IF hoop THEN m.next + 14 ELSE m.next
      o1 == IF hoop THEN After8(B, o0) ELSE o0
      o2 == o1 + (CASE version \in {50, 55, 56} -> 24 [] version \in {60, 70} -> 36 [] version = 80 -> 38 [] version = 90 -> 30 [] OTHER -> 38)
      o3 == After8(B, o2) + (IF version = 80 THEN 26 ELSE IF hoop THEN 34 ELSE 24)
      plain == Le16(B, o3) = 0 /\ Le16(B, o3 + 2) = 0 /\ Le16(B, o3 + 4) = 0
      n == IF plain THEN Le16(B, o3 + 6) ELSE 0
      w == FoldLeft(LAMBDA a, i : LET t == PesThread(B, a.o) IN [o |-> t.next, thr |-> Append(a.thr, t.t)], [o |-> o3 + 8, thr |-> << >>], [i \in 1..n |-> i])
  IN IF version = 40 THEN [ext |-> m.ext, thr |-> << >>]
     ELSE IF version < 40 THEN [ext |-> {}, thr |-> << >>]
     ELSE [ext |-> m.ext \cup (IF hoop THEN Meta_("hoop_name", Text8(B, o0)) ELSE {})
                    \cup Meta_(IF version < 60 THEN "image" ELSE "image_file", Text8(B, o2)), thr |-> w.thr]
\* the version, ten times, a PES file gives itself; 0: none known
PesVersion(B) ==
  LET s == Part(B, 0, 8)
      is(a, b, c, d) == s = <<35, 80, 69, 83, 48 + a, 48 + b, 48 + c, 48 + d>>
  IN CASE is(0, 1, 0, 0) -> 100 [] is(0, 0, 9, 0) -> 90 [] is(0, 0, 8, 0) -> 80 [] is(0, 0, 7, 0) -> 70 [] is(0, 0, 6, 0) -> 60
       [] is(0, 0, 5, 0) -> 50 [] is(0, 0, 5, 5) -> 55 [] is(0, 0, 5, 6) -> 56 [] is(0, 0, 4, 0) -> 40 [] is(0, 0, 3, 0) -> 30
       [] is(0, 0, 2, 2) -> 22 [] is(0, 0, 2, 0) -> 20 [] is(0, 0, 0, 1) -> 10 [] OTHER -> 0
PesLoad(B) ==
  IF Part(B, 0, 8) = <<35, 80, 69, 67, 48, 48, 48, 49>> THEN PecLoad(B, 8, << >>) @@ [version |-> 0]
  ELSE LET v == PesVersion(B)
           h == PesHeader(B, v)
           p == PecLoad(B, Le24(B, 8), h.thr)
       IN [p EXCEPT !.ext = @ \cup h.ext] @@ [version |-> v]

(* --- VP3 -------------------------------------------------------------------- *)
Vp3Load(B) ==
  LET p == Vp3Parse(B)
      u(t) == OrNone(Utf8(t))
  IN [q |-> Vp3Seen(p.q), ext |-> {}, gfx |-> << >>, version |-> 0,
      thr |-> [i \in DOMAIN p.blocks |-> <<p.blocks[i].thread.color, u(p.blocks[i].thread.desc), u(p.blocks[i].thread.cat), << >>, u(p.blocks[i].thread.brand), << >>, << >>>>]]

(* --- thread lists ------------------------------------------------------------ *)
Only(thr) == [q |-> << >>, thr |-> thr, ext |-> {}, gfx |-> << >>, version |-> 0]
Colored(r, g, b) == <<65536 * r + 256 * g + b, << >>, << >>, << >>, << >>, << >>, << >>>>
EdrLoad(B) == Only([k \in 1..((Len(B) + 1) \div 4) |-> Colored(B[4 * k - 3], B[4 * k - 2], B[4 * k - 1])])
\* records of their own length: number, colour, needle, two texts ended by 0
InfLoad(B) ==
  LET n == Be16(B, 14)
      z(o, e) == LET k == {i \in o..(e - 1) : Zero(B, i) = 0} IN IF k = {} THEN -1 ELSE Min(k)
      step(a, i) ==
        LET e == a.o + Be16(B, a.o)
            d == z(a.o + 9, e)
            h == IF d < 0 THEN z(a.o + 9, e) ELSE z(d + 1, e)
            txt(s, k) == IF k < 0 THEN << >> ELSE OrNone(Utf8(Part(B, s, k - s)))
        IN IF a.done \/ e > Len(B) \/ e <= a.o THEN [a EXCEPT !.done = TRUE]
           ELSE [a EXCEPT !.o = e, !.thr = Append(@, [Colored(Zero(B, a.o + 4), Zero(B, a.o + 5), Zero(B, a.o + 6)) EXCEPT
                                                      ![2] = txt(a.o + 9, d), ![6] = txt(d + 1, h)])]
  IN Only(FoldLeft(step, [o |-> 16, thr |-> << >>, done |-> FALSE], [i \in 1..n |-> i]).thr)

(* --- lines of text ------------------------------------------------------------ *)
\* the lines that end
LinesOf(t) == FoldLeft(LAMBDA a, ch : IF ch \in {10, 13} THEN [l |-> << >>, out |-> Append(a.out, a.l)] ELSE [a EXCEPT !.l = Append(@, ch)],
                       [l |-> << >>, out |-> << >>], t)
Split(t, sep) == LET w == FoldLeft(LAMBDA a, ch : IF ch = sep THEN [l |-> << >>, out |-> Append(a.out, a.l)] ELSE [a EXCEPT !.l = Append(@, ch)],
                                   [l |-> << >>, out |-> << >>], t)
                 IN Append(w.out, w.l)
Digits(t) == FoldLeft(LAMBDA a, ch : IF ch \in 48..57 THEN 10 * a + ch - 48 ELSE a, 0, t)
\* a count, then rows of catalog number, red, green, blue
ColLoad(t) ==
  LET w == LinesOf(t)
      rows == SelectSeq(IF w.l = << >> THEN w.out ELSE Append(w.out, w.l), LAMBDA l : Stripped(l) # << >>)
      n == Digits(rows[1])
      one(l) == LET f == Split(l, 44) IN [Colored(Digits(f[2]), Digits(f[3]), Digits(f[4])) EXCEPT ![3] = f[1]]
  IN Only([i \in 1..n |-> one(rows[i + 1])])

(* --- G-code --------------------------------------------------------------------- *)
\* a number of up to three decimals, in thousandths
Number(t) ==
  LET neg == \E i \in DOMAIN t : t[i] = 45
      p == {i \in DOMAIN t : t[i] = 46}
      w == IF p = {} THEN t ELSE SubSeq(t, 1, Min(p) - 1)
      f == IF p = {} THEN << >> ELSE SubSeq(t, Min(p) + 1, Len(t))
      v == 1000 * Digits(w) + (CASE Len(f) = 0 -> 0 [] Len(f) = 1 -> 100 * Digits(f) [] Len(f) = 2 -> 10 * Digits(f) [] OTHER -> Digits(SubSeq(f, 1, 3)))
  IN IF neg THEN -v ELSE v
Letter(ch) == ch \in 65..90 \/ ch \in 97..122
NumChar(ch) == ch \in 48..57 \/ ch \in {43, 45, 46}
\* a line as words <<letter, thousandths>> and its last comment
Words(l) ==
  LET put(a) == IF a.c = 0 THEN a ELSE [a EXCEPT !.w = Append(@, <<a.c, Number(a.v)>>), !.c = 0, !.v = << >>]
      step(a, ch) ==
        IF a.in THEN (IF ch = 41 THEN [a EXCEPT !.in = FALSE] ELSE IF ch > 127 THEN a ELSE [a EXCEPT !.t = Append(@, ch)])
        ELSE IF ch \in {40, 59} THEN [a EXCEPT !.in = TRUE, !.t = << >>]
        ELSE IF NumChar(ch) THEN [a EXCEPT !.v = Append(@, ch)]
        ELSE IF Letter(ch) THEN [put(a) EXCEPT !.c = IF ch < 97 THEN ch + 32 ELSE ch]
        ELSE a
  IN put(FoldLeft(step, [w |-> << >>, c |-> 0, v |-> << >>, in |-> FALSE, t |-> << >>], l))
Word(w, ch) == LET k == {i \in DOMAIN w : w[i][1] = ch} IN IF k = {} THEN -999999999 ELSE w[Max(k)][2]
ThreadLabel(t) == Len(t) > 7 /\ SubSeq(t, 1, 6) = <<84, 104, 114, 101, 97, 100>> /\ t[Len(t)] = 58 /\ \A i \in 7..(Len(t) - 1) : t[i] \in 48..57
GcodeLoad(t) ==
  LET step(s, l) ==
        LET w == Words(l)
            g == Word(w.w, 103)
            m == Word(w.w, 109)
            x == Word(w.w, 120)
            y == Word(w.w, 121)
            f == Split(w.t, 32)
            n == IF Len(f) > 1 /\ ThreadLabel(f[1]) THEN [s EXCEPT !.thr = Append(@, [Colored(0, 0, 0) EXCEPT ![1] = Th!TextValue(f[2])])] ELSE s
            \* thousandths of a millimetre or inch, flipped, as thousandths of a tenth of a millimetre
            px == (IF s.abs THEN 0 ELSE s.x) - x * s.unit
            py == (IF s.abs THEN 0 ELSE s.y) - y * s.unit
            none == -999999999
        IN IF g \in {0, 1000} /\ x # none /\ y # none
             THEN [n EXCEPT !.x = px, !.y = py, !.q = Append(@, <<px, py, STITCH, 0>>)]
           ELSE LET u == CASE g \in {20000, 70000} -> [n EXCEPT !.unit = 254]
                           [] g \in {21000, 71000} -> [n EXCEPT !.unit = 10]
                           [] g = 90000 -> [n EXCEPT !.abs = TRUE]
                           [] g = 91000 -> [n EXCEPT !.abs = FALSE]
                           [] OTHER -> n
                IN CASE m \in {30000, 2000} -> [u EXCEPT !.q = Append(@, <<s.x, s.y, END, 0>>)]
                     [] m \in {0, 1000} -> [u EXCEPT !.q = Append(@, <<s.x, s.y, COLORCHANGE, 0>>)]
                     [] OTHER -> u
      w == FoldLeft(step, [x |-> 0, y |-> 0, unit |-> 10, abs |-> TRUE, q |-> << >>, thr |-> << >>], LinesOf(t).out)
  IN [q |-> w.q, thr |-> w.thr, ext |-> {}, gfx |-> << >>, version |-> 0]

(* --- DST headers ---------------------------------------------------------------- *)
DstHead(B) ==
  LET h == Part(B, 0, 512)
      lines == LinesOf(h).out
      one(l) == Stripped(Utf8(l))
      step(a, l) ==
        LET t == one(l)
            key == Stripped(SubSeq(t, 1, 2))
            val == Stripped(SubSeq(t, 4, Len(t)))
            cm == SelectSeq([i \in DOMAIN val |-> i], LAMBDA i : val[i] = 44)
            col == Stripped(IF cm = << >> THEN val ELSE SubSeq(val, 1, cm[1] - 1))
            rest == IF cm = << >> THEN << >> ELSE SubSeq(val, cm[1] + 1, Len(val))
            lastc == IF Len(cm) < 2 THEN 0 ELSE cm[Len(cm)] - cm[1]
            desc == Stripped(IF lastc = 0 THEN << >> ELSE SubSeq(rest, 1, lastc - 1))
            cat == Stripped(IF lastc = 0 THEN rest ELSE SubSeq(rest, lastc + 1, Len(rest)))
            put(k) == [a EXCEPT !.ext = {e \in @ : e[1] # k} \cup {<<k, val>>}]
        IN IF Len(t) <= 3 \/ t = Bad THEN a
           ELSE CASE key = <<76, 65>> -> put("name")
                  [] key = <<65, 85>> -> put("author")
                  [] key = <<67, 80>> -> put("copyright")
                  [] key = <<84, 67>> -> [a EXCEPT !.thr = Append(@, <<Th!HexValue(IF col # << >> /\ col[1] = 35 THEN Tail(col) ELSE col), desc, cat, << >>, << >>, << >>, << >>>>)]
                  [] OTHER -> [a EXCEPT !.other = {e \in @ : e[1] # key} \cup {<<key, val>>}]
  IN FoldLeft(step, [ext |-> {}, thr |-> << >>, other |-> {}], lines)
DstLoad(B) ==
  LET h == DstHead(B)
  IN [q |-> InterpTrims(Decode("dst", SubSeq(B, 513, Len(B)), 0, 0, << >>), 3, -1, TRUE, <<0>>), thr |-> h.thr, ext |-> h.ext, other |-> h.other, gfx |-> << >>, version |-> 0]

Load(fmt, B) == CASE fmt = "pes" -> PesLoad(B)
                  [] fmt = "pec" -> PecLoad(B, 8, << >>) @@ [version |-> 0]
                  [] fmt = "vp3" -> Vp3Load(B)
                  [] fmt = "edr" -> EdrLoad(B)
                  [] fmt = "inf" -> InfLoad(B)
                  [] fmt = "col" -> ColLoad(B)
                  [] fmt = "gcode" -> GcodeLoad(B)
                  [] fmt = "dst" -> DstLoad(B)
=============================================================================
