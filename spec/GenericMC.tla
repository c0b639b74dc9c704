----------------------------- MODULE GenericMC -----------------------------
(* The template writer on every small design and many template sets.           *)
EXTENDS Generic
CONSTANT N
Wraps == {"document_start", "document_end", "color_start", "color_end", "color_join", "block_start", "block_end", "block_join"}
Segs == {"segment", "stitch", "trim", "color_change", "end", "jump", "needle_set"}
VARIABLES q, w, T
vars == <<q, w, T>>
Init == /\ q = << >> /\ w = Nothing
        /\ \E S \in {{"segment"}, Segs \ {"segment"}, {"stitch"}, {"stitch", "color_change"}, {"stitch", "trim", "end"}, {"jump", "stitch", "color_change", "trim"},
                     {"trim", "color_change", "end"}, {"needle_set", "stitch", "end"}} : T = S \cup Wraps
Flags == {STITCH, JUMP, TRIM, COLORCHANGE, END, NEEDLESET}
Command(f) == LET s == <<10 * Len(q), 3 * Len(q), f, 0, 0, 0>>
              IN Len(q) < N /\ q' = Append(q, s) /\ w' = Feed(w, s, T, 1) /\ UNCHANGED T
Sew == Command(STITCH)
Other == \E f \in Flags \ {STITCH} : Command(f)
Next == Sew \/ Other
Spec == Init /\ [][Next]_vars
O == Closed(w, T).out
\* one token after the other: what is open; "bad" when it does not nest
Level(x) == CASE x = "document_start" -> 1 [] x = "color_start" -> 2 [] x = "block_start" -> 3
              [] x = "block_end" -> 3 [] x = "color_end" -> 2 [] x = "document_end" -> 1 [] OTHER -> 0
Nest(d, t) == LET x == t[1]
              IN IF d < 0 THEN d
                 ELSE IF x \in {"document_start", "color_start", "block_start"} THEN IF d = Level(x) - 1 THEN d + 1 ELSE -1
                 ELSE IF x \in {"document_end", "color_end", "block_end"} THEN IF d = Level(x) THEN d - 1 ELSE -1
                 ELSE IF x = "color_join" THEN IF d = 1 THEN d ELSE -1
                 ELSE IF x = "block_join" THEN IF d = 2 THEN d ELSE -1
                 ELSE IF x \in {"stitch", "jump", "end"} THEN IF d = 3 THEN d ELSE -1
                 ELSE IF d >= 1 THEN d ELSE -1
Balanced == FoldLeft(Nest, 0, O) = 0
Count_(x) == Cardinality({i \in DOMAIN O : O[i][1] = x})
SegTokens == SelectSeq(O, LAMBDA t : t[1] \in Segs)
\* every command with a template once, in order
Once == LET k == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : Chosen(q[i][3], T) # "")
        IN [i \in DOMAIN SegTokens |-> SegTokens[i][2][1]] = [i \in DOMAIN k |-> k[i] - 1]
\* joins stand between: fewer by one in every document, colour
Joins == /\ Count_("color_join") = Count_("color_start") - Cardinality({O[i][2][14] : i \in {i \in DOMAIN O : O[i][1] = "color_start"}})
         /\ Count_("block_join") = Count_("block_start")
              - Cardinality({<<O[i][2][14], O[i][2][15]>> : i \in {i \in DOMAIN O : O[i][1] = "block_start"}})
\* leaving a wrapping text out leaves the rest as it is
Subsets_ == \A x \in {{"color_start"}, {"block_end", "block_start"}, {"color_join", "document_end"}, Wraps} :
              Tokens(q, T \ x, 1) = SelectSeq(O, LAMBDA t : t[1] \notin x)
\* a command without a template might as well not be there
Names_(o) == [i \in DOMAIN o |-> <<o[i][1], o[i][2][14], o[i][2][15], o[i][2][16]>>]
Absent == Names_(O) = Names_(Tokens(SelectSeq(q, LAMBDA s : Chosen(s[3], T) # ""), T, 1))
\* stitches between the start and end of a colour are those between the changes written
Sections == \A i \in DOMAIN O : O[i][1] = "color_change" /\ i < Len(O) => O[i + 1][1] \in {"block_end", "color_end", "color_start", "color_change", "color_join", "document_end", "document_start"}
=============================================================================
