------------------------------ MODULE ConvertMC ------------------------------
(* Chains of conversions of every small design: no penetration is lost, no    *)
(* block loses its change, and a format reached a second time has nothing     *)
(* more to change.                                                            *)
EXTENDS Convert
CONSTANTS N,      \* commands of the design
          K       \* conversions
Fmts == {"dst", "exp", "jef", "u01", "xxx", "tbf", "pec", "vp3", "gcode"}
Points == {<<0, 0>>, <<12000, 0>>, <<-3000, 5000>>, <<300000, -12000>>}
VARIABLES q, now, was, route     \* was: the last design as the encoder gave it
vars == <<q, now, was, route>>
Put(f, p) == q' = Append(q, <<p[1], p[2], f, 0, 0, 0>>) /\ now' = q' /\ UNCHANGED <<was, route>>
At_ == IF q = << >> THEN <<0, 0>> ELSE <<q[Len(q)][1], q[Len(q)][2]>>
Open == route = << >> /\ Len(q) < N
Init == q = << >> /\ now = << >> /\ was = << >> /\ route = << >>
Travel == Open /\ \E p \in Points, f \in {STITCH, JUMP} : Put(f, p)
Order_ == Open /\ \E f \in {TRIM, STOP, COLORCHANGE, COLORBREAK} : Put(f, At_)
Count4 == 4
Go == /\ Len(q) > 0 /\ Len(route) < K
      /\ \E f \in Fmts : /\ now' = Source(Converted(f, now, Count4))
                         /\ was' = LET e == Encoded(Case_(f, now, Count4)).out        \* G-code is written upside down and read so
                                   IN IF f = "gcode" THEN [i \in DOMAIN e |-> <<-e[i][1], -e[i][2], e[i][3]>>] ELSE e
                         /\ route' = Append(route, f)
      /\ UNCHANGED q
Done == Len(route) = K /\ UNCHANGED vars
Next == Travel \/ Order_ \/ Go \/ Done
Spec == Init /\ [][Next]_vars
Kept == route # << >> => SubsequenceOf(Once(Penetrations(q)), Penetrations(now), 0)
\* the needle comes down only where the encoded design before it goes
Places(a) == {<<a[i][1], a[i][2]>> : i \in DOMAIN a}
Nothing_new == route # << >> => {<<s[1], s[2]>> : s \in {now[i] : i \in {j \in DOMAIN now : now[j][3] = STITCH}}} \subseteq Places(was)
\* changes before anything is sewn may be taken for the choice of the first thread
Later(a) == LET k == {i \in DOMAIN a : a[i][3] = STITCH} IN IF k = {} THEN << >> ELSE SubSeq(a, Min(k), Len(a))
Settled == (route # << >>) =>
   LET f == route[Len(route)]
       again == Source(Converted(f, now, Count4))
   IN Penetrations(again) = Penetrations(now) /\ Cnt(Later(again), Changes) = Cnt(Later(now), Changes)
=============================================================================
