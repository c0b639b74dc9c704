------------------------------- MODULE Matrix --------------------------------
(* Two transforms held in registers and changed by operations, and designs moved *)
(* as a whole.  Matrices are those of Encoder: linear entries in 1/10000,        *)
(* translations in thousandths.                                                  *)
EXTENDS Encoder
\* an operation: op, r (register 1 or 2), a (linear part, or the vector), q (fixed point)
Moved(q) == MTrans(q[1], q[2])
\* the elementary transform an operation adds
Elem(o) == CASE o.kind = "translate" -> Moved(o.a) [] o.kind = "scale" -> MScl(o.a[1], o.a[2]) [] o.kind = "rotate" -> MRot(o.a[1], o.a[2]) [] OTHER -> Identity
RECURSIVE PostAll(_, _, _), PreAll(_, _, _)
PostAll(m, q, i) == IF i > Len(q) THEN m ELSE PostAll(Compose(m, q[i]), q, i + 1)
PreAll(m, q, i) == IF i > Len(q) THEN m ELSE PreAll(Compose(q[i], m), q, i + 1)
\* the inverse of a transform whose linear part has determinant det (1/10000)
Inverted(m) ==
  LET det == MulDiv(m[1], m[4], ONE) - MulDiv(m[2], m[3], ONE)
      dv(a) == IF Abs(det) % ONE = 0 THEN Sign(det) * QuotR(a, Abs(det) \div ONE)
               ELSE IF det > 0 THEN MulDiv(a, ONE, det) ELSE -MulDiv(a, ONE, -det)
      lin == <<dv(m[4]), -dv(m[2]), -dv(m[3]), dv(m[1])>>
      t == ApplyM(<<lin[1], lin[2], lin[3], lin[4], 0, 0>>, m[5], m[6])
  IN <<lin[1], lin[2], lin[3], lin[4], -t[1], -t[2]>>
\* registers after an operation
Done1(reg, o) ==
  LET m == reg[o.r]
      n == CASE o.op = "post" -> About(m, Elem(o), o.q)
             [] o.op = "pre" -> Compose(Elem(o), m)
             [] o.op = "postcat" -> PostAll(m, o.cat, 1)
             [] o.op = "precat" -> PreAll(m, o.cat, 1)
             [] o.op = "inverse" -> Inverted(m)
             [] o.op = "reset" -> Identity
             [] o.op = "times" -> Compose(reg[1], reg[2])          \* the result goes to register o.r
             [] o.op = "timesinto" -> Compose(m, reg[3 - o.r])
             [] o.op = "copy" -> reg[3 - o.r]
             [] OTHER -> m
  IN [reg EXCEPT ![o.r] = n]
\* whole-design operations: the transform that every position goes through
Centre(pts) ==
  LET xs == {pts[i][1] : i \in DOMAIN pts}
      ys == {pts[i][2] : i \in DOMAIN pts}
      hi(S) == CHOOSE v \in S : \A w \in S : w <= v
      lo(S) == CHOOSE v \in S : \A w \in S : w >= v
  IN IF pts = << >> THEN <<0, 0>> ELSE <<hi(xs) + lo(xs), hi(ys) + lo(ys)>>       \* twice the centre
=============================================================================
