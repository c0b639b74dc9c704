------------------------------- MODULE Formats -------------------------------
(* The record languages of the stitch formats.                               *)
(*   Decode(fmt, B, base, aux)   what the bytes of a file denote             *)
(*   Written(fmt, q, o)          what a low-level design becomes in a format *)
(*   EncRec(fmt, dx, dy, f, st)  the bytes of one record (model checked      *)
(*                               against Decode in FormatsMC)                *)
(* A raw command is <<x, y, flag, needle>>, x and y in thousandths of a unit *)
EXTENDS Cmds

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(b, k) == (b \div Pow2[k + 1]) % 2
Has(b, m) == (b \div m) % 2 = 1                  \* m a power of two
S8(b) == IF b > 127 THEN b - 256 ELSE b
S16(v) == IF v > 32767 THEN v - 65536 ELSE v
S24(v) == IF v > 8388607 THEN v - 16777216 ELSE v
SignMag(b, neg) == IF neg THEN -b ELSE b

(* ---------------------------------------------------------------- decoder *)
(* s: i = offset of the next record, x y = needle, out, done, k = a counter, *)
(* m = a mode flag, inv = TRUE when the end of the design was inside the data*)
DecInit(i) == [i |-> i, x |-> 0, y |-> 0, out |-> << >>, done |-> FALSE, k |-> 0, m |-> 0, px |-> 0, py |-> 0,
               fin |-> TRUE]
Stop_(s) == [s EXCEPT !.done = TRUE]
Quiet(s) == [s EXCEPT !.done = TRUE, !.fin = FALSE]
Skip(s, n) == [s EXCEPT !.i = @ + n]
EmitM(s, dx, dy, f, nd) ==
  [s EXCEPT !.x = @ + dx, !.y = @ + dy, !.out = Append(@, <<s.x + dx, s.y + dy, f, nd>>)]
Emit(s, n, dx, dy, f) == Skip(EmitM(s, 1000 * dx, 1000 * dy, f, 0), n)
EmitAbs(s, n, x, y, f) == Skip(EmitM(s, x - s.x, y - s.y, f, 0), n)
Ctl(s, n, f) == Emit(s, n, 0, 0, f)
Needle(s, n, nd) == Skip(EmitM(s, 0, 0, NEEDLESET, nd + 1), n)
MoveIf(s, n, dx, dy) == IF dx # 0 \/ dy # 0 THEN Emit(s, n, dx, dy, JUMP) ELSE Skip(s, n)

DstDx(b0, b1, b2) == 81 * (Bit(b2, 2) - Bit(b2, 3)) + 27 * (Bit(b1, 2) - Bit(b1, 3))
   + 9 * (Bit(b0, 2) - Bit(b0, 3)) + 3 * (Bit(b1, 0) - Bit(b1, 1)) + (Bit(b0, 0) - Bit(b0, 1))
DstDy(b0, b1, b2) == -(81 * (Bit(b2, 5) - Bit(b2, 4)) + 27 * (Bit(b1, 5) - Bit(b1, 4))
   + 9 * (Bit(b0, 5) - Bit(b0, 4)) + 3 * (Bit(b1, 7) - Bit(b1, 6)) + (Bit(b0, 7) - Bit(b0, 6)))

DecDst(s, b0, b1, b2) ==
  LET dx == DstDx(b0, b1, b2)
      dy == DstDy(b0, b1, b2)
      lo == b2 % 4 = 3
  IN CASE lo /\ b2 >= 192 /\ Has(b2, 32) /\ Has(b2, 16) -> Stop_(s)
       [] lo /\ b2 >= 192 -> Emit(s, 3, dx, dy, COLORCHANGE)
       [] lo /\ Has(b2, 64) -> [Emit(s, 3, dx, dy, SEQMODE) EXCEPT !.m = 1 - @]
       [] lo /\ Has(b2, 128) -> Emit(s, 3, dx, dy, IF s.m = 1 THEN SEQEJECT ELSE JUMP)
       [] OTHER -> Emit(s, 3, dx, dy, STITCH)

\* the three-byte machines of the Barudan family: ctrl first
DecU01(s, c, a, b) ==
  LET dy == SignMag(-a, Has(c, 64))
      dx == SignMag(b, Has(c, 32))
      k == c % 32
  IN CASE k = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] k = 1 -> Emit(s, 3, dx, dy, JUMP)
       [] k \in {2, 3, 4, 5} -> LET t == Ctl(s, 0, IF k < 4 THEN FAST ELSE SLOW)
                               IN IF dx = 0 /\ dy = 0 THEN Skip(t, 3)
                                  ELSE Emit(t, 3, dx, dy, IF k % 2 = 0 THEN STITCH ELSE JUMP)
       [] k \in {6, 7} -> MoveIf(Ctl(s, 0, TRIM), 3, dx, dy)
       [] k = 8 -> MoveIf(Ctl(s, 0, STOP), 3, dx, dy)
       [] k >= 9 /\ k <= 23 -> MoveIf(Needle(s, 0, k - 8), 3, dx, dy)
       [] OTHER -> Stop_(s)
DecDsb(s, c, a, b) ==
  LET dy == SignMag(-a, Has(c, 64))
      dx == SignMag(b, Has(c, 32))
  IN CASE c % 32 = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] c % 32 = 1 -> Emit(s, 3, dx, dy, JUMP)
       [] c = 248 -> Stop_(s)
       [] c = 231 -> Ctl(s, 3, TRIM)
       [] c = 232 -> Ctl(s, 3, STOP)
       [] c >= 233 /\ c < 248 -> Needle(s, 3, c - 232)
       [] OTHER -> Stop_(s)
DecDsz(s, a, b, c) ==
  LET dx == SignMag(b, Has(c, 64))
      dy == SignMag(-a, Has(c, 32))
  IN CASE c % 32 = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] c % 32 = 1 -> Emit(s, 3, dx, dy, JUMP)
       [] c = 130 -> Ctl(s, 3, STOP)
       [] c = 155 -> Ctl(s, 3, TRIM)
       [] c >= 131 /\ c <= 154 -> Needle(s, 3, (c - 131) \div 2)
       [] OTHER -> Stop_(s)
Dec10o(s, c, a, b) ==
  LET dx == SignMag(b, Has(c, 32))
      dy == SignMag(-a, Has(c, 64))
  IN CASE c % 32 = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] c % 32 = 16 -> Emit(s, 3, dx, dy, JUMP)
       [] c = 138 -> Skip(s, 3)
       [] c = 133 -> Ctl(s, 3, COLORCHANGE)
       [] c = 130 -> Ctl(s, 3, STOP)
       [] c = 129 -> Ctl(s, 3, TRIM)
       [] OTHER -> Stop_(s)
Dec100(s, c, a, b) ==
  LET dx == IF a > 128 THEN -(a - 128) ELSE a
      dy == -(IF b > 128 THEN -(b - 128) ELSE b)
  IN CASE c = 97 -> Emit(s, 4, dx, dy, STITCH)
       [] c # 97 /\ c % 2 = 1 -> Emit(s, 4, dx, dy, JUMP)
       [] OTHER -> Ctl(s, 4, COLORCHANGE)
DecStc(s, a, b, c) ==
  CASE c = 1 -> Emit(s, 3, S8(a), -S8(b), STITCH)
    [] c = 0 -> Emit(s, 3, S8(a), -S8(b), JUMP)
    [] c = 25 -> Stop_(s)
    [] OTHER -> Needle(s, 3, c - 2)
DecInb(s, a, b, c) ==
  LET dx == SignMag(a, Has(c, 64))
      dy == SignMag(-b, Has(c, 32))
  IN CASE c % 16 = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] c % 16 = 1 -> Emit(s, 3, dx, dy, COLORCHANGE)
       [] c % 16 = 2 -> Emit(s, 3, dx, dy, JUMP)
       [] OTHER -> Stop_(s)
DecNew(s, a, b, c) ==
  LET dx == SignMag(a, Has(c, 64))
      dy == SignMag(-b, Has(c, 32))
      k == c % 32
  IN CASE k = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] k = 17 -> Stop_(s)
       [] k # 17 /\ Has(k, 2) -> Ctl(s, 3, COLORCHANGE)
       [] k # 17 /\ ~Has(k, 2) /\ Has(k, 1) -> Emit(s, 3, dx, dy, JUMP)
       [] OTHER -> Skip(s, 3)
DecZxy(s, c, a, b) ==
  LET dx == SignMag(a, Has(c, 8))
      dy == SignMag(-b, Has(c, 4))
      k == c - 8 * Bit(c, 3) - 4 * Bit(c, 2)
  IN CASE k = 0 -> Emit(s, 3, dx, dy, STITCH)
       [] k # 0 /\ Has(k, 2) -> Emit(s, 3, dx, dy, JUMP)
       [] k # 0 /\ ~Has(k, 2) /\ Has(k, 32) -> IF a = 255 THEN Stop_(s) ELSE Needle(s, 3, b)
       [] OTHER -> Skip(s, 3)
DecTbf(s, a, b, c, aux) ==
  CASE c = 128 -> Emit(s, 3, S8(a), -S8(b), STITCH)
    [] c = 129 -> LET n == aux[s.k + 1]
                  IN [(IF n = 0 THEN Ctl(s, 3, STOP) ELSE Needle(s, 3, n)) EXCEPT !.k = @ + 1]
    [] c = 144 -> IF a = 0 /\ b = 0 THEN Ctl(s, 3, TRIM) ELSE Emit(s, 3, S8(a), -S8(b), JUMP)
    [] c = 64 -> Ctl(s, 3, STOP)
    [] c = 134 -> Ctl(s, 3, TRIM)
    [] OTHER -> Stop_(s)
DecSun(s, a, b, c) ==
  LET dx == SignMag(a % 128, a >= 128)
      dy == -SignMag(b % 128, b >= 128)
  IN CASE c \in {7, 132} -> Emit(s, 3, dx, dy, STITCH)
       [] c = 4 -> Emit(s, 3, dx, dy, JUMP)
       [] c = 128 -> MoveIf(Ctl(s, 0, TRIM), 3, dx, dy)
       [] c = 135 -> MoveIf(Ctl(s, 0, COLORCHANGE), 3, dx, dy)
       [] OTHER -> Stop_(s)
\* ksm: m bit 0 = trimmed, k = 1 once something was sewn
DecKsm(s, a, b, c) ==
  LET dx == SignMag(b, Has(c, 64))
      dy == SignMag(-a, Has(c, 32))
      k == c % 32
      t == IF dx = 0 /\ dy = 0 THEN s
           ELSE IF s.m = 1 THEN Emit(s, 0, dx, dy, JUMP)
           ELSE [Emit(s, 0, dx, dy, STITCH) EXCEPT !.k = 1]
  IN CASE k = 0 -> Skip(t, 3)
       [] k \in {7, 19, 29} -> [(IF t.k = 1 THEN Ctl(t, 3, TRIM) ELSE Skip(t, 3)) EXCEPT !.m = 1]
       [] k \in 23..25 \cup {27} -> [Skip(t, 3) EXCEPT !.m = 0]
       [] k \in 11..18 -> [Needle(t, 3, k - 10) EXCEPT !.m = 1]
       [] k = 5 -> Ctl(t, 3, STOP)
       [] OTHER -> Stop_(t)
\* zhs: displacements gather in px, py until a command uses them
ZBits(p, q) == Bit(p, 0) + 2 * Bit(q, 1) + 4 * Bit(p, 2) + 8 * Bit(q, 3) + 16 * Bit(p, 4)
               + 32 * Bit(q, 5) + 64 * Bit(p, 6) + 128 * Bit(q, 7)
ZVal(v) == LET a == S8(v)
               b == IF a >= 63 THEN a + 1 ELSE a
           IN IF b <= -63 THEN b - 1 ELSE b
DecZhs(s, c, a, b) ==
  LET gx == s.px + ZVal(ZBits(a, b))
      gy == s.py + ZVal(ZBits(b, a))
      z(t) == [t EXCEPT !.px = 0, !.py = 0]
  IN CASE c = 16 -> Skip(s, 3)
       [] c = 2 -> z(Emit(s, 3, gx, -gy, STITCH))
       [] c = 1 -> z(Emit(s, 3, gx, -gy, JUMP))
       [] c = 4 -> z(Ctl(s, 3, COLORCHANGE))
       [] c = 128 -> Stop_(s)
       [] OTHER -> [Skip(s, 3) EXCEPT !.px = gx, !.py = gy]
\* mit: k = previous control + 1 (0 = none)
DecMit(s, a, b) ==
  LET dx == 2 * SignMag(a % 32, a >= 128)
      dy == 2 * SignMag(-(b % 32), b >= 128)
      c == 4 * ((a \div 32) % 4) + ((b \div 32) % 4)
  IN [(CASE c = 12 -> Emit(s, 2, dx, dy, JUMP)
         [] c = 8 -> IF s.k = 8 THEN Ctl(s, 2, COLORCHANGE) ELSE Skip(s, 2)
         [] c = 0 -> Ctl(s, 2, END)
         [] OTHER -> Emit(s, 2, dx, dy, STITCH)) EXCEPT !.k = c + 1]

Pcd(v) == LET n == 5000 * Abs(v) IN Sign(v) * QuotR(n, 3)     \* units of 0.6, in thousandths
MaxU(v) == v * 1235

Step(fmt, B, base, aux, s) ==
  LET N == Len(B)
      Av(n) == s.i - base + n <= N
      G(k) == B[s.i - base + 1 + k]
      U16le(k) == G(k) + 256 * G(k + 1)
      U16be(k) == G(k + 1) + 256 * G(k)
      U24le(k) == G(k) + 256 * G(k + 1) + 65536 * G(k + 2)
      U24be(k) == G(k + 2) + 256 * G(k + 1) + 65536 * G(k)
      Pair == Emit(s, 2, S8(G(0)), -S8(G(1)), STITCH)
  IN
  CASE fmt \in {"dst", "u01", "dat", "dsb", "dsz", "10o", "stc", "inb", "new", "zxy", "tbf", "sun", "ksm", "zhs"} ->
        IF ~Av(3) THEN Stop_(s)
        ELSE (CASE fmt = "dst" -> DecDst(s, G(0), G(1), G(2))
                [] fmt \in {"u01", "dat"} -> DecU01(s, G(0), G(1), G(2))
                [] fmt = "dsb" -> DecDsb(s, G(0), G(1), G(2))
                [] fmt = "dsz" -> DecDsz(s, G(0), G(1), G(2))
                [] fmt = "10o" -> Dec10o(s, G(0), G(1), G(2))
                [] fmt = "stc" -> DecStc(s, G(0), G(1), G(2))
                [] fmt = "inb" -> DecInb(s, G(0), G(1), G(2))
                [] fmt = "new" -> DecNew(s, G(0), G(1), G(2))
                [] fmt = "zxy" -> DecZxy(s, G(0), G(1), G(2))
                [] fmt = "tbf" -> DecTbf(s, G(0), G(1), G(2), aux)
                [] fmt = "sun" -> DecSun(s, G(0), G(1), G(2))
                [] fmt = "ksm" -> DecKsm(s, G(0), G(1), G(2))
                [] OTHER -> DecZhs(s, G(0), G(1), G(2)))
    [] fmt = "100" -> IF ~Av(4) THEN Stop_(s) ELSE Dec100(s, G(0), G(2), G(3))
    [] fmt = "mit" -> IF ~Av(2) THEN Stop_(s) ELSE DecMit(s, G(0), G(1))
    [] fmt \in {"exp", "sew", "jpx", "jef"} ->
        IF ~Av(2) THEN Stop_(s)
        ELSE IF G(0) # 128 THEN Pair
        ELSE IF ~Av(4) THEN Stop_(s)
        ELSE LET c == G(1)
                 dx == S8(G(2))
                 dy == -S8(G(3))
             IN (CASE fmt = "exp" /\ c = 128 -> Ctl(s, 4, TRIM)
                   [] fmt = "exp" /\ c = 2 -> Emit(s, 4, dx, dy, STITCH)
                   [] fmt = "exp" /\ c = 4 -> Emit(s, 4, dx, dy, JUMP)
                   [] fmt = "exp" /\ c = 1 -> MoveIf(Ctl(s, 0, COLORCHANGE), 4, dx, dy)
                   [] fmt = "sew" /\ c % 2 = 1 -> Ctl(s, 4, COLORCHANGE)
                   [] fmt = "sew" /\ c \in {2, 4} -> Emit(s, 4, dx, dy, JUMP)
                   [] fmt = "sew" /\ c = 16 -> Emit(s, 4, dx, dy, STITCH)
                   [] fmt \in {"jpx", "jef"} /\ c = 2 -> Emit(s, 4, dx, dy, JUMP)
                   [] fmt = "jpx" /\ c = 1 -> MoveIf(Ctl(s, 0, COLORCHANGE), 4, dx, dy)
                   [] fmt = "jef" /\ c = 1 ->
                        \* aux: the palette; entry 0 is a stop
                        LET e == IF s.k + 2 <= Len(aux) THEN aux[s.k + 2] ELSE -1
                        IN [(IF e = 0 THEN Ctl(s, 4, STOP) ELSE Ctl(s, 4, COLORCHANGE)) EXCEPT !.k = @ + 1]
                   [] OTHER -> Stop_(s))
    [] fmt = "emd" ->
        IF ~Av(2) THEN Stop_(s)
        ELSE IF G(0) # 128 THEN Pair
        ELSE (CASE G(1) = 128 -> IF ~Av(4) THEN Stop_(s) ELSE Emit(s, 4, S8(G(2)), -S8(G(3)), JUMP)
                [] G(1) = 42 -> Ctl(s, 2, COLORCHANGE)
                [] G(1) = 125 -> Skip(s, 2)
                [] G(1) \in {144, 173} -> Ctl(s, 2, TRIM)
                [] OTHER -> Stop_(s))
    [] fmt = "bro" ->
        IF ~Av(2) THEN Stop_(s)
        ELSE IF G(0) # 128 THEN Pair
        ELSE IF ~Av(3) THEN Stop_(s)
        ELSE LET c == G(2)
             IN (CASE c = 0 -> Skip(s, 3)
                   [] c \in {126, 3} -> IF ~Av(7) THEN Stop_(s) ELSE Emit(s, 7, S16(U16le(3)), -S16(U16le(5)), JUMP)
                   [] c \in 225..239 -> IF ~Av(7) THEN Stop_(s)
                                        ELSE Emit(Needle(s, 0, c - 224), 7, S16(U16le(3)), -S16(U16le(5)), JUMP)
                   [] OTHER -> Stop_(s))
    [] fmt = "xxx" ->
        IF ~Av(1) THEN Stop_(s)
        ELSE IF G(0) \in {125, 126} THEN IF ~Av(5) THEN Stop_(s) ELSE Emit(s, 5, S16(U16le(1)), -S16(U16le(3)), JUMP)
        ELSE IF ~Av(2) THEN Stop_(s)
        ELSE IF G(0) # 127 THEN Pair
        ELSE IF ~Av(4) THEN Stop_(s)
        ELSE LET dx == S8(G(2))
                 dy == -S8(G(3))
             IN (CASE G(1) = 1 -> Emit(s, 4, dx, dy, JUMP)
                   [] G(1) = 3 -> MoveIf(Ctl(s, 0, TRIM), 4, dx, dy)
                   [] G(1) \in {8} \cup 10..23 -> Ctl(s, 4, COLORCHANGE)
                   [] G(1) \in {127, 24} -> Stop_(s)
                   [] OTHER -> Skip(s, 4))
    [] fmt = "pec" ->
        IF ~Av(2) \/ (G(0) = 255 /\ G(1) = 0) THEN Stop_(s)
        ELSE IF G(0) = 254 /\ G(1) = 176 THEN IF ~Av(3) THEN Stop_(s) ELSE Ctl(s, 3, COLORCHANGE)
        ELSE LET xl == G(0) >= 128
                 yo == IF xl THEN 2 ELSE 1
             IN IF ~Av(yo + 1) THEN Stop_(s)
                ELSE LET yl == G(yo) >= 128
                         n == yo + (IF yl THEN 2 ELSE 1)
                     IN IF ~Av(n) THEN Stop_(s)
                        ELSE LET S12(v) == IF v > 2047 THEN v - 4096 ELSE v
                                 S7(v) == IF v > 63 THEN v - 128 ELSE v
                                 dx == IF xl THEN S12(256 * (G(0) % 16) + G(1)) ELSE S7(G(0))
                                 dy == IF yl THEN S12(256 * (G(yo) % 16) + G(yo + 1)) ELSE S7(G(yo))
                                 fl(k) == (xl /\ Has(G(0), k)) \/ (yl /\ Has(G(yo), k))
                             IN IF fl(16) THEN Emit(s, n, dx, dy, JUMP)
                                ELSE IF fl(32) THEN Emit(Ctl(s, 0, TRIM), n, dx, dy, JUMP)
                                ELSE Emit(s, n, dx, dy, STITCH)
    [] fmt = "pcd" ->
        IF ~Av(9) THEN Stop_(s)
        ELSE LET x == Pcd(S24(U24le(1)))
                 y == -Pcd(S24(U24le(5)))
                 c == G(8)
             IN (CASE c = 0 -> EmitAbs(s, 9, x, y, STITCH)
                   [] c % 2 = 1 -> Ctl(s, 9, COLORCHANGE)
                   [] c % 2 = 0 /\ Has(c, 4) -> EmitAbs(s, 9, x, y, JUMP)
                   [] OTHER -> Stop_(s))
    [] fmt = "pcm" ->
        IF ~Av(9) THEN Stop_(s)
        ELSE LET x == Pcd(S24(U24be(0)))
                 y == -Pcd(S24(U24be(4)))
                 c == G(8)
             IN (CASE c = 0 -> EmitAbs(s, 9, x, y, STITCH)
                   [] c % 2 = 1 -> Ctl(s, 9, COLORCHANGE)
                   [] c % 2 = 0 /\ Has(c, 4) -> EmitAbs(s, 9, x, y, JUMP)
                   [] OTHER -> Stop_(s))
    [] fmt = "max" ->   \* aux[1]: the record count of the header
        IF s.k >= aux[1] \/ ~Av(8) THEN Stop_(s)
        ELSE [EmitAbs(s, 8, MaxU(S24(U24le(0))), MaxU(S24(U24le(4))), STITCH) EXCEPT !.k = @ + 1]
    [] fmt = "spx" ->
        IF ~Av(9) THEN Quiet(s)
        ELSE Emit(s, 9, S16(U16be(4)), -S16(U16be(2)) - S8(G(6)), STITCH)
    [] fmt = "pmv" ->   \* m: points left in the block; k: block-wise x (half units), y absolute
        IF s.m = 0 THEN IF ~Av(4) THEN Quiet(s)
                        ELSE IF U16le(2) >= 256 THEN Stop_(s)
                        ELSE [Skip(s, 4) EXCEPT !.m = U16le(0)]
        ELSE IF ~Av(2) THEN Quiet(s)
        ELSE LET y5 == IF G(1) > 16 THEN -(32 - G(1)) ELSE G(1)
                 x6 == IF G(0) > 32 THEN -(64 - G(0)) ELSE G(0)
             IN [EmitAbs(s, 2, s.x + 2500 * x6, -2500 * y5, STITCH) EXCEPT !.m = @ - 1]
    [] fmt = "shv" ->   \* aux: stitches per colour; k: current colour - 1, px: counter, m: jumping
        IF ~Av(2) THEN Stop_(s)
        ELSE LET lim == IF s.k + 1 <= Len(aux) THEN aux[s.k + 1] ELSE INF
                 t == IF s.px >= lim THEN [Ctl(s, 0, COLORCHANGE) EXCEPT !.px = 0, !.k = @ + 1] ELSE s
             IN IF G(0) = 128 /\ G(1) = 3 THEN [Skip(t, 2) EXCEPT !.px = @ + 1]
                ELSE IF G(0) = 128 /\ G(1) = 2 THEN [Skip(t, 2) EXCEPT !.px = @ + 1, !.m = 0]
                ELSE IF G(0) = 128 /\ G(1) = 1
                     THEN IF ~Av(6) THEN Stop_(t)
                          ELSE [Emit(t, 6, S16(U16be(2)), S16(U16be(4)), JUMP) EXCEPT !.px = @ + 3, !.m = 1]
                ELSE [Emit(t, 2, S8(G(0)), S8(G(1)), IF t.m = 1 THEN JUMP ELSE STITCH) EXCEPT !.px = @ + 1]
    [] OTHER -> Stop_(s)

DecodeRaw(fmt, B, base, start, aux) ==
  FoldLeft(LAMBDA s, j : IF s.done THEN s ELSE Step(fmt, B, base, aux, s), DecInit(start),
           [j \in 1..(Len(B) + 2) |-> j])
\* with the end command every reader adds behind the last record
Finish(s) == IF s.fin THEN Append(s.out, <<s.x, s.y, END, 0>>) ELSE s.out
Decode(fmt, B, base, start, aux) == Finish(DecodeRaw(fmt, B, base, start, aux))

(* --------------------------------------------------- what writing denotes *)
(* q: low-level commands <<x, y, flag, needle+1>>; the needle goes to the     *)
(* rounded displacement from where it really is (w.x, w.y, whole units)      *)
DstTrim(n) == \* displacements of the n jumps that spell a trim
  IF n < 2 THEN << <<2, 2>>, <<-2, -2>> >>
  ELSE <<<<2, 2>>>> \o [p \in 1..(n - 2) |-> IF p % 2 = 1 THEN <<-4, -4>> ELSE <<4, 4>>]
       \o << IF (n - 2) % 2 = 1 THEN <<2, 2>> ELSE <<-2, -2>> >>

WStep(fmt, o, w, c) ==
  LET f == c[3]
      dx == RoundHE(c[1] - 1000 * w.x)
      dy == RoundHE(c[2] - 1000 * w.y)
      t == [w EXCEPT !.x = @ + dx, !.y = @ + dy]
      at == [t EXCEPT !.out = Append(@, <<1000 * t.x, 1000 * t.y, f, 0>>)]
      as(g) == [t EXCEPT !.out = Append(@, <<1000 * t.x, 1000 * t.y, g, 0>>)]
      as2(g, h) == [t EXCEPT !.out = @ \o << <<1000 * w.x, 1000 * w.y, g, 0>>, <<1000 * t.x, 1000 * t.y, h, 0>> >>]
  IN IF w.done THEN w
     ELSE IF f = END THEN [t EXCEPT !.done = TRUE]
     ELSE
  CASE fmt = "dst" ->
        (CASE f \in {STITCH, JUMP, COLORCHANGE, SEQMODE, SEQEJECT} -> at
           [] f = STOP -> as(COLORCHANGE)
           [] f = TRIM -> FoldLeft(LAMBDA a, d : [a EXCEPT !.tx = @ + d[1], !.ty = @ + d[2],
                                      !.out = Append(@, <<1000 * (t.x + a.tx + d[1]), 1000 * (t.y + a.ty + d[2]), JUMP, 0>>)],
                                   [t EXCEPT !.tx = 0, !.ty = 0], DstTrim(o.trimat))
           [] OTHER -> t)
    [] fmt = "exp" ->
        (CASE f \in {STITCH, JUMP, COLORCHANGE, TRIM} -> at
           [] f = STOP -> as(COLORCHANGE)
           [] OTHER -> t)
    [] fmt = "u01" ->
        (CASE f \in {STITCH, JUMP, TRIM, STOP, SLOW, FAST} -> at
           [] f = NEEDLESET -> LET n == c[4] - 1
                               IN [t EXCEPT !.out = Append(@, <<1000 * t.x, 1000 * t.y, f,
                                                                1 + (IF n >= 15 THEN (n % 15) + 1 ELSE n)>>)]
           [] OTHER -> t)
    [] fmt = "xxx" ->
        (CASE f \in {STITCH, JUMP, TRIM, COLORCHANGE} -> at
           [] f = STOP -> as(COLORCHANGE)
           [] OTHER -> t)
    [] fmt = "tbf" ->
        (CASE f \in {STITCH, TRIM, STOP} -> at
           [] f = JUMP -> IF dx = 0 /\ dy = 0 THEN t ELSE at
           [] f = NEEDLESET -> [t EXCEPT !.out = Append(@, <<1000 * t.x, 1000 * t.y, f, c[4]>>)]
           [] OTHER -> t)
    [] fmt = "jef" ->
        \* a second stop in a block repeats the colour instead: the file then holds a change
        (CASE f \in {STITCH, JUMP} -> at
           [] f = COLORCHANGE -> [at EXCEPT !.m = 1]
           [] f = STOP -> IF w.m = 1 THEN [at EXCEPT !.m = 0] ELSE [as(COLORCHANGE) EXCEPT !.m = 1]
           [] f = TRIM /\ o.trims -> [t EXCEPT !.out = @ \o [k \in 1..o.trimat |-> <<1000 * t.x, 1000 * t.y, JUMP, 0>>]]
           [] OTHER -> t)
    [] fmt = "pec" ->   \* m = 1 while a jump is open, k = 0 before the first command
        LET here(a) == [a EXCEPT !.out = Append(@, <<1000 * w.x, 1000 * w.y, STITCH, 0>>)]
            z == IF w.m = 1 /\ dx # 0 /\ dy # 0 THEN here(w) ELSE w
        IN [(CASE f = STITCH -> [t EXCEPT !.out = Append(z.out, <<1000 * t.x, 1000 * t.y, STITCH, 0>>), !.m = 0]
               [] f = JUMP -> [(IF w.k = 0 THEN at ELSE as2(TRIM, JUMP)) EXCEPT !.m = 1]
               [] f \in {COLORCHANGE, STOP} -> [t EXCEPT !.out = (IF w.m = 1 THEN here(w).out ELSE w.out)
                                                       \o << <<1000 * w.x, 1000 * w.y,
                                                                IF o.keepstop THEN f ELSE COLORCHANGE, 0>> >>, !.m = 0]
               [] OTHER -> t) EXCEPT !.k = 1]
    [] OTHER -> t

WInit(fmt) == [x |-> 0, y |-> 0, out |-> << >>, done |-> FALSE, m |-> 1, k |-> 0, tx |-> 0, ty |-> 0]
Written(fmt, o, q) ==
  LET w == FoldLeft(LAMBDA a, c : WStep(fmt, o, a, c), WInit(fmt), q)
  IN Append(w.out, <<IF w.out = << >> THEN 0 ELSE w.out[Len(w.out)][1],
                     IF w.out = << >> THEN 0 ELSE w.out[Len(w.out)][2], END, 0>>)

(* ------------------------------------------- encoding defaults per format *)
BaseCfg == [ms |-> INF, mj |-> INF, full |-> FALSE, round |-> FALSE, needles |-> 5, tcc |-> COLORCHANGE, seq |-> SEQJUMP,
            speeds |-> TRUE, explicit |-> FALSE, tieon |-> FALSE, tieoff |-> FALSE, long |-> LONGJUMP,
            translate |-> <<0, 0>>, scale |-> <<10000, 10000>>, rot |-> <<10000, 0>>]
Lim(cfg, n) == [cfg EXCEPT !.ms = 1000 * n, !.mj = 1000 * n]
Defaults(fmt) ==
  CASE fmt = "dst" -> [Lim(BaseCfg, 121) EXCEPT !.round = TRUE, !.seq = SEQUTIL]
    [] fmt \in {"exp", "jef"} -> [Lim(BaseCfg, 127) EXCEPT !.round = TRUE, !.full = TRUE]
    [] fmt \in {"pec", "pes"} -> [Lim(BaseCfg, 2047) EXCEPT !.round = TRUE, !.full = TRUE]
    [] fmt = "xxx" -> [Lim(BaseCfg, 124) EXCEPT !.round = TRUE]
    [] fmt = "u01" -> [Lim(BaseCfg, 127) EXCEPT !.tcc = NEEDLESET]
    [] fmt = "tbf" -> [Lim(BaseCfg, 127) EXCEPT !.round = TRUE, !.tcc = NEEDLESET, !.explicit = TRUE]
    [] fmt = "vp3" -> [BaseCfg EXCEPT !.ms = 255000, !.mj = 3200000]
    [] fmt = "gcode" -> [BaseCfg EXCEPT !.seq = SEQSTITCH, !.scale = <<-10000, -10000>>]
    [] fmt \in {"csv", "generic"} -> [BaseCfg EXCEPT !.seq = SEQUTIL]
    [] fmt = "svg" -> [BaseCfg EXCEPT !.seq = SEQSTITCH]
    [] fmt = "png" -> [BaseCfg EXCEPT !.seq = SEQSTITCH, !.full = TRUE]
    [] fmt = "pmv" -> [BaseCfg EXCEPT !.ms = 70000]
    [] OTHER -> BaseCfg

(* ------------------------------------------------------- record encoders *)
DstDigits(v) == \* balanced ternary digits of v, most significant (81) first
  LET d1(n) == IF n > 40 THEN 1 ELSE IF n < -40 THEN -1 ELSE 0
      d2(n) == IF n > 13 THEN 1 ELSE IF n < -13 THEN -1 ELSE 0
      d3(n) == IF n > 4 THEN 1 ELSE IF n < -4 THEN -1 ELSE 0
      d4(n) == IF n > 1 THEN 1 ELSE IF n < -1 THEN -1 ELSE 0
      a == d1(v)      v2 == v - 81 * a
      b == d2(v2)     v3 == v2 - 27 * b
      c == d3(v3)     v4 == v3 - 9 * c
      d == d4(v4)
  IN <<a, b, c, d, v4 - 3 * d>>
P(d) == IF d = 1 THEN 1 ELSE 0
M(d) == IF d = -1 THEN 1 ELSE 0
DstMove(dx, dy, hi) ==
  LET x == DstDigits(dx)
      y == DstDigits(-dy)
  IN << P(x[5]) + 2 * M(x[5]) + 4 * P(x[3]) + 8 * M(x[3]) + 16 * M(y[3]) + 32 * P(y[3]) + 64 * M(y[5]) + 128 * P(y[5]),
        P(x[4]) + 2 * M(x[4]) + 4 * P(x[2]) + 8 * M(x[2]) + 16 * M(y[2]) + 32 * P(y[2]) + 64 * M(y[4]) + 128 * P(y[4]),
        3 + 4 * P(x[1]) + 8 * M(x[1]) + 16 * M(y[1]) + 32 * P(y[1]) + hi >>
By(v) == v % 256
W16le(v) == <<v % 256, (v \div 256) % 256>>
PecNum(v, long, fl) == IF ~long /\ v > -64 /\ v < 63 THEN <<v % 128>>
                       ELSE LET u == v % 4096 IN <<128 + fl + u \div 256, u % 256>>
EncRec(fmt, dx, dy, f, nd) ==
  CASE fmt = "dst" -> (CASE f = STITCH -> DstMove(dx, dy, 0)
                         [] f \in {JUMP, SEQEJECT} -> DstMove(dx, dy, 128)
                         [] f \in {COLORCHANGE, STOP} -> <<0, 0, 195>>
                         [] f = SEQMODE -> <<0, 0, 67>>
                         [] f = END -> <<0, 0, 243>>
                         [] OTHER -> << >>)
    [] fmt = "exp" -> (CASE f = STITCH -> <<By(dx), By(-dy)>>
                         [] f = JUMP -> <<128, 4, By(dx), By(-dy)>>
                         [] f = TRIM -> <<128, 128, 7, 0>>
                         [] f \in {COLORCHANGE, STOP} -> <<128, 1, 0, 0>>
                         [] OTHER -> << >>)
    [] fmt = "u01" -> LET c == 128 + (IF dy >= 0 THEN 64 ELSE 0) + (IF dx <= 0 THEN 32 ELSE 0)
                          r(k) == <<c + k, Abs(dy), Abs(dx)>>
                      IN (CASE f = STITCH -> r(0) [] f = JUMP -> r(1) [] f = FAST -> r(2) [] f = SLOW -> r(4)
                            [] f = TRIM -> r(7) [] f = STOP -> r(8) [] f = NEEDLESET -> r(8 + nd - 1)
                            [] f = END -> <<248, 0, 0>> [] OTHER -> << >>)
    [] fmt = "xxx" -> (CASE f = STITCH -> <<By(dx), By(-dy)>>
                         [] f = JUMP -> <<127, 1, By(dx), By(-dy)>>
                         [] f = TRIM -> <<127, 3, By(dx), By(-dy)>>
                         [] f \in {COLORCHANGE, STOP} -> <<127, 8, By(dx), By(-dy)>>
                         [] f = END -> <<127, 127, 2, 20>> [] OTHER -> << >>)
    [] fmt = "tbf" -> LET r(k) == <<By(dx), By(-dy), k>>
                      IN (CASE f = STITCH -> r(128) [] f = JUMP -> r(144) [] f = STOP -> r(64) [] f = TRIM -> r(134)
                            [] f = NEEDLESET -> r(129) [] f = END -> r(143) [] OTHER -> << >>)
    [] fmt = "jef" -> (CASE f = STITCH -> <<By(dx), By(-dy)>>
                         [] f = JUMP -> <<128, 2, By(dx), By(-dy)>>
                         [] f \in {COLORCHANGE, STOP} -> <<128, 1, By(dx), By(-dy)>>
                         [] f = END -> <<128, 16>> [] OTHER -> << >>)
    [] fmt = "pec" -> (CASE f = STITCH -> PecNum(dx, FALSE, 0) \o PecNum(dy, FALSE, 0)
                         [] f = JUMP -> PecNum(dx, TRUE, IF nd = 0 THEN 16 ELSE 32) \o PecNum(dy, TRUE, IF nd = 0 THEN 16 ELSE 32)
                         [] f = COLORCHANGE -> <<254, 176, 2>>
                         [] f = END -> <<255, 0>> [] OTHER -> << >>)
    [] OTHER -> << >>
=============================================================================
