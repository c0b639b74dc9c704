------------------------------- MODULE MetaMC -------------------------------
(* The text fields on all small texts: cut to size, one line, carried twice    *)
(* is carried once.                                                             *)
EXTENDS Meta
CONSTANT N
Alphabet == {97, SPACE, LF, CR, 26, 233, 37329}
VARIABLES t, long
vars == <<t, long>>
Init == t = << >> /\ long \in {0, 7, 14, 253}
Type == Len(t) < N /\ \E ch \in Alphabet : t' = Append(t, ch) /\ UNCHANGED long
Next == Type
Spec == Init /\ [][Next]_vars
T == [i \in 1..long |-> 98] \o t
Fits == \A n \in IF long > 99 THEN {255} ELSE {0, 1, 2, 3, 4, 16} :
          LET f == Fit(T, n)
          IN /\ ByteLen(f) <= n /\ f = SubSeq(T, 1, Len(f))
             /\ (Len(f) < Len(T) => ByteLen(SubSeq(T, 1, Len(f) + 1)) > n)
Line_ == LET l == OneLine(T) IN ~Has(l, LF) /\ ~Has(l, CR) /\ ~Has(l, 26) /\ OneLine(l) = l /\ Len(l) <= Len(T)
Stripped == Strip(Strip(T)) = Strip(T) /\ (Strip(T) # << >> => Strip(T)[1] \notin White /\ Last(Strip(T)) \notin White)
E == {<<KName, T>>, <<KAuthor, T>>, <<KCopyright, T>>, <<KComments, T>>}
Again(fmt) == LET w == CarriedExt(fmt, E)
                  v == CarriedExt(fmt, w)
              IN \A e \in w : e[1] # KLabel /\ e[2] # << >> /\ Strip(e[2]) = e[2] => e \in v
CarriedTwice == \A fmt \in {"dst", "dstx", "pec", "pes1", "pes6", "tbf", "csv"} : Again(fmt)
\* what fits is kept as it is
Kept == (\A i \in DOMAIN t : t[i] \in {97, 233, 37329}) /\ ByteLen(T) <= 16 /\ T # << >>
        => /\ CarriedExt("dst", E) = {<<KName, T>>} /\ CarriedExt("tbf", E) = {<<KName, T>>}
           /\ {<<KAuthor, T>>, <<KCopyright, T>>} \subseteq CarriedExt("dstx", E)
           /\ {<<KName, T>>, <<KComments, T>>, <<KAuthor, T>>} \subseteq CarriedExt("pes6", E)
=============================================================================
