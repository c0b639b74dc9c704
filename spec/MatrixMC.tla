------------------------------ MODULE MatrixMC -------------------------------
(* All histories of N operations on two transforms.  Beside the matrices the    *)
(* model carries what each does to three points, computed without matrices: a    *)
(* post operation moves the points before the transform in force sees them, a    *)
(* pre operation moves what it has made.                                         *)
EXTENDS Matrix
CONSTANT N
VARIABLES reg, steps, nums
vars == <<reg, steps, nums>>
Els == {[kind |-> "translate", a |-> <<1000, -3000>>], [kind |-> "scale", a |-> <<20000, 20000>>], [kind |-> "scale", a |-> <<-10000, 10000>>],
        [kind |-> "rotate", a |-> <<0, 10000>>], [kind |-> "rotate", a |-> <<6000, 8000>>]}
Probe == <<<<0, 0>>, <<1000, 0>>, <<3000, -2000>>>>
\* an elementary transform on a point, plainly
Act(e, p) == CASE e.kind = "translate" -> <<p[1] + e.a[1], p[2] + e.a[2]>>
               [] e.kind = "scale" -> <<(p[1] * e.a[1]) \div ONE, (p[2] * e.a[2]) \div ONE>>
               [] OTHER -> <<((p[1] * e.a[1]) - (p[2] * e.a[2])) \div ONE, ((p[1] * e.a[2]) + (p[2] * e.a[1])) \div ONE>>
\* a transform as the list of elementary transforms in the order they act
RECURSIVE Through(_, _, _)
Through(w, p, i) == IF i > Len(w) THEN p ELSE Through(w, Act(w[i], p), i + 1)
Init == reg = <<Identity, Identity>> /\ steps = 0 /\ nums = <<<< >>, << >>>>
Digits(w) == Len(SelectSeq(w, LAMBDA e : e.kind = "rotate" /\ e.a[1] = 6000))
Doublings(w) == Len(SelectSeq(w, LAMBDA e : e.kind = "scale" /\ e.a[1] # -10000))
O(op, e, r, q) == [op |-> op, kind |-> e.kind, a |-> e.a, r |-> r, q |-> q, cat |-> << >>]
None == [kind |-> "none", a |-> <<0, 0>>]
Go(o, w) == reg' = Done1(reg, o) /\ nums' = [nums EXCEPT ![o.r] = w] /\ steps' = steps + 1 /\ Digits(w) <= 1 /\ Doublings(w) <= 2
Free == steps < N
Post == Free /\ \E e \in Els, r \in {1, 2} : Go(O("post", e, r, <<0, 0>>), <<e>> \o nums[r])
\* about a fixed point: away from it comes last
Fixed == Free /\ \E e \in Els, r \in {1, 2} : e.kind # "translate" /\
  LET t(s) == [kind |-> "translate", a |-> <<s * 5000, s * 7000>>] IN Go(O("post", e, r, <<5000, 7000>>), <<t(-1), e, t(1)>> \o nums[r])
Pre == Free /\ \E e \in Els, r \in {1, 2} : Go(O("pre", e, r, <<0, 0>>), nums[r] \o <<e>>)
Times == Free /\ \E r \in {1, 2} : Go(O("times", None, r, <<0, 0>>), nums[2] \o nums[1])
Into == Free /\ \E r \in {1, 2} : Go(O("timesinto", None, r, <<0, 0>>), nums[3 - r] \o nums[r])
Reset == Free /\ \E r \in {1, 2} : Go(O("reset", None, r, <<0, 0>>), << >>)
Undo(e) == CASE e.kind = "translate" -> [e EXCEPT !.a = <<-e.a[1], -e.a[2]>>] [] e.kind = "rotate" -> [e EXCEPT !.a = <<e.a[1], -e.a[2]>>]
             [] OTHER -> [e EXCEPT !.a = <<IF e.a[1] = 20000 THEN 5000 ELSE IF e.a[1] = 5000 THEN 20000 ELSE e.a[1],
                                           IF e.a[2] = 20000 THEN 5000 ELSE IF e.a[2] = 5000 THEN 20000 ELSE e.a[2]>>]
Turn == Free /\ \E r \in {1, 2} : Go(O("inverse", None, r, <<0, 0>>), [i \in DOMAIN nums[r] |-> Undo(nums[r][(Len(nums[r]) - i) + 1])])
Next == Post \/ Fixed \/ Pre \/ Times \/ Into \/ Reset \/ Turn
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a matrix does what its history says (halves of thousandths aside)
ByHistory == \A r \in {1, 2}, i \in DOMAIN Probe :
  LET a == ApplyM(reg[r], Probe[i][1], Probe[i][2])
      b == Through(nums[r], Probe[i], 1)
  IN Near(a[1], b[1], 16) /\ Near(a[2], b[2], 16)
\* an inverse undoes on either side
Undone == \A r \in {1, 2} : LET v == Inverted(reg[r]) IN \A m \in {Compose(v, reg[r]), Compose(reg[r], v)} :
  /\ \A k \in 1..4 : Near(m[k], Identity[k], 32) /\ \A j \in 5..6 : Near(m[j], 0, 64)
\* three transforms compose the same however they are grouped
Grouped == Doublings(nums[1] \o nums[2]) <= 2 => \A e \in Els : Compose(Compose(reg[1], Elem(e)), reg[2]) = Compose(reg[1], Compose(Elem(e), reg[2])) \/ Digits(nums[1] \o nums[2]) > 0
\* the fixed point of a scaling or turn stays
Stays == \A e \in Els : ApplyM(About(Identity, Elem(e), <<5000, 7000>>), 5000, 7000) = <<5000, 7000>> \/ e.kind = "translate"
=============================================================================
