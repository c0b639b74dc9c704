------------------------------ MODULE Compress ------------------------------
(* Compressed byte streams: blocks of Huffman-coded literals and references    *)
(* back into what is already expanded, as a machine over the bits, high bit    *)
(* of each byte first.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Pow2(n) == 2^n
Octet(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0
\* the n <= 16 bits at bit position p (from 0); past the end they are zero
Bits(b, p, n) ==
  LET k == p \div 8
      w == 65536 * Octet(b, k + 1) + 256 * Octet(b, k + 2) + Octet(b, k + 3)
  IN (w \div Pow2((24 - (p % 8)) - n)) % Pow2(n)

(* --- codes ----------------------------------------------------------------- *)
\* code lengths of the symbols 0, 1, ..: shorter codes first, then lower symbols; a code fills the interval
\* [at, at + 2^(16 - len)) of what 16 bits can be.  A table with no lengths stands for its one symbol, in no bits.
Constant(v) == [one |-> TRUE, sym |-> v, codes |-> << >>]
Table(lengths) ==
  LET syms == FlattenSeq([l \in 1..16 |-> SelectSeq([i \in DOMAIN lengths |-> i], LAMBDA i : lengths[i] = l)])
      put(w, i) == [at |-> w.at + Pow2(16 - lengths[i]), c |-> Append(w.c, <<w.at, lengths[i], i - 1>>)]
  IN [one |-> FALSE, sym |-> 0, codes |-> FoldLeft(put, [at |-> 0, c |-> << >>], syms).c]
Complete(t) == t.one \/ (t.codes # << >> /\ LET z == t.codes[Len(t.codes)] IN z[1] + Pow2(16 - z[2]) = 65536)
RECURSIVE Seek(_, _, _, _)
Seek(c, v, lo, hi) == IF lo = hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN IF c[m][1] <= v THEN Seek(c, v, m, hi) ELSE Seek(c, v, lo, m - 1)
\* <<symbol, bits taken>> of the code at p
Symbol(t, b, p) == IF t.one THEN <<t.sym, 0>>
                   ELSE LET e == t.codes[Seek(t.codes, Bits(b, p, 16), 1, Len(t.codes))] IN <<e[3], e[2]>>

(* --- tables in the stream -------------------------------------------------- *)
RECURSIVE Ones(_, _, _)
Ones(b, p, most) == IF most = 0 \/ Bits(b, p, 1) = 0 THEN 0 ELSE 1 + Ones(b, p + 1, most - 1)
\* a length: three bits, and beyond 7 one more for each 1 that follows, closed by a 0
Length(b, p) == LET m == Bits(b, p, 3) IN IF m # 7 THEN <<m, 3>> ELSE LET n == Ones(b, p + 3, 13) IN <<7 + n, IF n = 13 THEN 16 ELSE 4 + n>>
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Lengths(_, _, _, _, _)
\* skip: after the third length, two bits say how many of the next are zero
Lengths(b, p, n, skip, acc) ==
  IF Len(acc) >= n THEN [p |-> p, l |-> acc]
  ELSE IF skip /\ Len(acc) = 3 THEN LET z == Bits(b, p, 2)
                                        r == Length(b, p + 2)
                                    IN Lengths(b, p + 2 + r[2], n, skip, (acc \o Zeros(z)) \o <<r[1]>>)
  ELSE LET r == Length(b, p) IN Lengths(b, p + r[2], n, skip, Append(acc, r[1]))
ShortTable(b, p, skip) ==
  LET n == Bits(b, p, 5)
  IN IF n = 0 THEN [p |-> p + 10, t |-> Constant(Bits(b, p + 5, 5))]
     ELSE LET r == Lengths(b, p + 5, n, skip, << >>) IN [p |-> r.p, t |-> Table(r.l)]
RECURSIVE CharLengths(_, _, _, _, _)
CharLengths(t, b, p, n, acc) ==
  IF Len(acc) >= n THEN [p |-> p, l |-> SubSeq(acc, 1, n)]
  ELSE LET s == Symbol(t, b, p)
           q == p + s[2]
       IN CASE s[1] = 0 -> CharLengths(t, b, q, n, Append(acc, 0))
            [] s[1] = 1 -> CharLengths(t, b, q + 4, n, acc \o Zeros(3 + Bits(b, q, 4)))
            [] s[1] = 2 -> CharLengths(t, b, q + 9, n, acc \o Zeros(20 + Bits(b, q, 9)))
            [] OTHER -> CharLengths(t, b, q, n, Append(acc, s[1] - 2))
CharTable(t, b, p) ==
  LET n == Bits(b, p, 9)
  IN IF n = 0 THEN [p |-> p + 18, t |-> Constant(Bits(b, p + 9, 9))]
     ELSE LET r == CharLengths(t, b, p + 9, n, << >>) IN [p |-> r.p, t |-> Table(r.l)]

(* --- the machine ----------------------------------------------------------- *)
LITERALS == 256  CLOSE == 510  SHORTEST == 3
Start0 == [p |-> 0, left |-> 0, chars |-> Constant(0), dist |-> Constant(0), out |-> << >>, end |-> FALSE, valid |-> TRUE]
\* tokens of a block of one symbol take no bits
Free(s) == s.left > 0 /\ s.chars.one /\ (s.chars.sym < LITERALS \/ (s.dist.one /\ s.dist.sym <= 1))
Ended(s, b, size) == s.end \/ (s.p >= 8 * Len(b) /\ ~Free(s)) \/ (size >= 0 /\ Len(s.out) >= size)
Load(s, b) ==
  LET h == ShortTable(b, s.p + 16, TRUE)
      k == CharTable(h.t, b, h.p)
      d == ShortTable(b, k.p, FALSE)
  IN [s EXCEPT !.p = d.p, !.left = Bits(b, s.p, 16), !.chars = k.t, !.dist = d.t,
               !.valid = @ /\ Complete(h.t) /\ Complete(k.t) /\ Bits(b, s.p, 16) > 0]
RECURSIVE Copy(_, _, _)
\* byte by byte: the reference may run into what it has just produced
Copy(out, back, n) == IF n = 0 THEN out ELSE Copy(Append(out, out[(Len(out) - back) + 1]), back, n - 1)
Token(s, b) ==
  LET h == Symbol(s.chars, b, s.p)
      s1 == [s EXCEPT !.p = @ + h[2], !.left = @ - 1]
      d == Symbol(s.dist, b, s1.p)
      q == s1.p + d[2]
      x == IF d[1] = 0 THEN 0 ELSE Pow2(d[1] - 1) + Bits(b, q, d[1] - 1)
      e == IF d[1] = 0 THEN q ELSE q + (d[1] - 1)
  IN IF h[1] < LITERALS THEN [s1 EXCEPT !.out = Append(@, h[1])]
     ELSE IF h[1] = CLOSE THEN [s1 EXCEPT !.end = TRUE]
     ELSE IF x + 1 > Len(s1.out) THEN [s1 EXCEPT !.end = TRUE, !.valid = FALSE]
     ELSE [s1 EXCEPT !.p = e, !.out = Copy(@, x + 1, (h[1] - LITERALS) + SHORTEST)]
Step(s, b) == IF s.left = 0 THEN Load(s, b) ELSE Token(s, b)
Result(s, size) == IF size >= 0 /\ size < Len(s.out) THEN SubSeq(s.out, 1, size) ELSE s.out

(* --- writing: the inverse -------------------------------------------------- *)
RECURSIVE Binary(_, _)
Binary(v, n) == IF n = 0 THEN << >> ELSE Append(Binary(v \div 2, n - 1), v % 2)
CodeOf(t, sym) == IF t.one THEN << >>
                  ELSE LET e == t.codes[CHOOSE i \in DOMAIN t.codes : t.codes[i][3] = sym] IN Binary(e[1] \div Pow2(16 - e[2]), e[2])
PutLength(l) == IF l < 7 THEN Binary(l, 3) ELSE (Binary(7, 3) \o [i \in 1..(l - 7) |-> 1]) \o (IF l = 20 THEN << >> ELSE <<0>>)
PutLengths(ls) == Binary(Len(ls), 5) \o FlattenSeq([i \in DOMAIN ls |-> PutLength(ls[i])])
\* with the two bits after the third length always 0, or (squeeze) skipping what it can
PutSkipping(ls, squeeze) ==
  LET z == IF ~squeeze \/ Len(ls) < 4 THEN 0 ELSE Max({k \in 0..Min({3, Len(ls) - 4}) : \A i \in 4..(3 + k) : ls[i] = 0})
  IN Binary(Len(ls), 5) \o FlattenSeq([i \in DOMAIN ls |-> IF i = 4 THEN Binary(z, 2) \o (IF z = 0 THEN PutLength(ls[4]) ELSE << >>)
                                                         ELSE IF i > 4 /\ i < 4 + z THEN << >> ELSE PutLength(ls[i])])
PutChars(t, ls) == Binary(Len(ls), 9) \o FlattenSeq([i \in DOMAIN ls |-> CodeOf(t, IF ls[i] = 0 THEN 0 ELSE ls[i] + 2)])
DistSym(x) == IF x = 0 THEN 0 ELSE 1 + Max({k \in 0..15 : Pow2(k) <= x})
PutDist(t, x) == CodeOf(t, DistSym(x)) \o (IF x = 0 THEN << >> ELSE Binary(x - Pow2(DistSym(x) - 1), DistSym(x) - 1))
Bytes(bits) == [i \in 1..((Len(bits) + 7) \div 8) |->
                  FoldLeft(LAMBDA a, j : 2 * a + (IF 8 * (i - 1) + j <= Len(bits) THEN bits[8 * (i - 1) + j] ELSE 0), 0, [j \in 1..8 |-> j])]
\* stored blocks: every byte has an eight bit code
StoredHead(n) == <<n \div 256, n % 256, 2, 160, 1, 254>>
RECURSIVE Stored(_, _)
Stored(d, most) == IF d = << >> THEN << >>
                   ELSE LET k == Min({Len(d), most}) IN StoredHead(k) \o SubSeq(d, 1, k) \o Stored(SubSeq(d, k + 1, Len(d)), most)
=============================================================================
