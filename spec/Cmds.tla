-------------------------------- MODULE Cmds --------------------------------
(* The command vocabulary of a design and small arithmetic shared by all     *)
(* modules.  A command of a design is a tuple                                *)
(*     <<x, y, flag, thread, needle, order>>                                 *)
(* x, y in thousandths of a unit; flag is the low byte; the three attributes *)
(* are 0 when absent and value+1 otherwise (exactly the packed bytes).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NOCMD == -1
STITCH == 0          JUMP == 1           TRIM == 2          STOP == 3
END == 4             COLORCHANGE == 5    SEQMODE == 6       SEQEJECT == 7
NEEDLESET == 9       SLOW == 11          FAST == 12         SETCHANGESEQ == 16
SEWTO == 176         NEEDLEAT == 177
MTRANSLATE == 192    MSCALEORIGIN == 193 MROTATEORIGIN == 194
MRESET == 195        MSCALE == 196       MROTATE == 197
TIEONSMALL == 209    TIEOFFSMALL == 210  TIEONNONE == 211   TIEOFFNONE == 212
OPTMAXSTITCH == 213  OPTMAXJUMP == 214   OPTEXPLICIT == 215 OPTIMPLICIT == 216
STITCHBREAK == 224   SEQBREAK == 225     COLORBREAK == 226
TIEON == 228         TIEOFF == 229       FRAMEEJECT == 233
LONGNONE == 240      LONGJUMP == 241     LONGSEW == 242
SEQUTIL == 245       SEQJUMP == 246      SEQSTITCH == 247   SEQREMOVE == 248

Sewing == {STITCH, NEEDLEAT, SEWTO, SEQEJECT}
LowLevel == {STITCH, JUMP, TRIM, STOP, END, COLORCHANGE, SEQMODE, SEQEJECT,
             NEEDLESET, SLOW, FAST}

INF == 1000000000

Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
\* truncation toward zero, and nearest (half away from zero)
QuotT(a, b) == Sign(a) * (Abs(a) \div b)
QuotR(a, b) == LET n == Abs(a) IN Sign(a) * ((n \div b) + (IF 2 * (n % b) >= b THEN 1 ELSE 0))
CeilDiv(a, b) == (a + b - 1) \div b
\* round a value in thousandths to a whole unit, halves to even (IEEE / Python)
RoundHE(a) == LET q == a \div 1000
                  r == a % 1000
              IN IF r < 500 THEN q ELSE IF r > 500 THEN q + 1
                 ELSE IF q % 2 = 0 THEN q ELSE q + 1
RoundMilli(a) == 1000 * RoundHE(a)
Near(a, b, tol) == Abs(a - b) <= tol

\* a*b/c without leaving 32 bits: |a| < 2^31/b is not required, |b|,c <= 40000
MulDiv(a, b, c) == LET s == Sign(a)
                       n == Abs(a)
                   IN s * ((n \div c) * b + QuotR((n % c) * b, c))

RECURSIVE ISqrtR(_, _)
ISqrtR(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE ISqrtR(n, h)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtR(n, MinOf(n, 46340))

Bare(f) == <<f, 0, 0, 0>>
Flag(s) == s[3]
Filter(q, T(_)) == SelectSeq(q, T)
=============================================================================
