--------------------------------- MODULE Csv ---------------------------------
(* Designs as text: the CSV grammar and the CSV/JSON designs.  Texts are lists *)
(* of code points.                                                             *)
EXTENDS Threads, Commands
QUOTE == 34  COMMA == 44  LF == 10  CR == 13  SPACE == 32

(* --- rows of fields -------------------------------------------------------- *)
\* m: "start" of a field, "plain", "in" quotes, "after" a quote inside quotes; cr: a CR ended the last row
CsvStep(w, ch) ==
  LET put(m) == [w EXCEPT !.f = Append(@, ch), !.m = m, !.cr = FALSE]
      field == [w EXCEPT !.r = Append(@, w.f), !.f = << >>, !.m = "start", !.cr = FALSE, !.any = TRUE]
      row == [w EXCEPT !.t = IF w.any \/ w.f # << >> \/ w.m # "start" THEN Append(@, Append(w.r, w.f)) ELSE @,
                       !.r = << >>, !.f = << >>, !.m = "start", !.cr = (ch = CR), !.any = FALSE]
  IN IF w.m = "in" THEN IF ch = QUOTE THEN [w EXCEPT !.m = "after"] ELSE put("in")
     ELSE IF w.m = "after" /\ ch = QUOTE THEN put("in")
     ELSE IF ch = LF /\ w.cr THEN [w EXCEPT !.cr = FALSE]
     ELSE IF ch \in {LF, CR} THEN row
     ELSE IF ch = COMMA THEN field
     ELSE IF ch = QUOTE /\ w.m = "start" THEN [w EXCEPT !.m = "in", !.cr = FALSE]
     ELSE put("plain")
Rows(text) == CsvStep(FoldLeft(CsvStep, [t |-> << >>, r |-> << >>, f |-> << >>, m |-> "start", cr |-> FALSE, any |-> FALSE], text), LF).t

Quoted(f) == <<QUOTE>> \o FlattenSeq([i \in DOMAIN f |-> IF f[i] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<f[i]>>]) \o <<QUOTE>>
Line(fs) == FlattenSeq([i \in DOMAIN fs |-> (IF i > 1 THEN <<COMMA>> ELSE << >>) \o Quoted(fs[i])]) \o <<LF>>

(* --- numbers --------------------------------------------------------------- *)
IsDigit(ch) == ch \in 48..57
DecStep(w, ch) == IF ch = 46 THEN [w EXCEPT !.dot = TRUE]
                  ELSE IF w.dot THEN [w EXCEPT !.v = @ * 10 + ch - 48, !.k = @ + 1] ELSE [w EXCEPT !.v = @ * 10 + ch - 48]
\* a decimal in thousandths; at most three places
Milli(t) == LET neg == t # << >> /\ t[1] = 45
                w == FoldLeft(DecStep, [v |-> 0, k |-> 0, dot |-> FALSE], IF neg THEN Tail(t) ELSE t)
                m == CASE w.k = 0 -> 1000 * w.v [] w.k = 1 -> 100 * w.v [] w.k = 2 -> 10 * w.v [] w.k = 3 -> w.v
            IN IF neg THEN -m ELSE m
Number(t) == FoldLeft(LAMBDA a, ch : a * 10 + ch - 48, 0, t)
SignedText(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
\* four bytes of a packed command, low byte first
Carry4(b) == LET a1 == b[1]
                 a2 == b[2] + a1 \div 256
                 a3 == b[3] + a2 \div 256
                 a4 == b[4] + a3 \div 256
             IN <<a1 % 256, a2 % 256, a3 % 256, a4 % 256>>
Packed(t) == IF t[1] = 45 THEN <<255, 255, 255, 255>>       \* only -1, no command, is negative
             ELSE FoldLeft(LAMBDA a, ch : Carry4(<<a[1] * 10 + ch - 48, a[2] * 10, a[3] * 10, a[4] * 10>>), <<0, 0, 0, 0>>, t)

(* --- commands -------------------------------------------------------------- *)
RECURSIVE Words(_)
Words(t) == LET k == {i \in DOMAIN t : t[i] = SPACE}
            IN IF k = {} THEN <<t>> ELSE LET i == Min(k) IN <<SubSeq(t, 1, i - 1)>> \o Words(SubSeq(t, i + 1, Len(t)))
UNKNOWN == <<85, 78, 75, 78, 79, 87, 78>>
NamedAs(n) == LET k == {i \in DOMAIN CommandNames : CommandNames[i][1] = n}
              IN IF k = {} THEN -1 ELSE CommandNames[CHOOSE i \in k : TRUE][2]
NameOf(f) == LET k == {i \in DOMAIN CommandNames : CommandNames[i][2] = f}
             IN IF k = {} THEN << >> ELSE CommandNames[CHOOSE i \in k : TRUE][1]
\* what a command's text denotes: the four bytes
CommandOf(t) ==
  LET w == Words(t)
      att(letter) == LET k == {i \in 2..Len(w) : w[i] # << >> /\ w[i][1] = letter}
                     IN IF k = {} THEN 0 ELSE Number(Tail(w[CHOOSE i \in k : TRUE])) + 1
  IN IF w[1] = UNKNOWN THEN Packed(w[2]) ELSE <<NamedAs(w[1]), att(116), att(110), att(111)>>
CommandText(b) ==
  LET part(letter, v) == IF v = 0 THEN << >> ELSE <<SPACE, letter>> \o Digits(v - 1)
  IN NameOf(b[1]) \o part(116, b[2]) \o part(110, b[3]) \o part(111, b[4])

(* --- what the rows of a file say ------------------------------------------- *)
Has(f, ch) == \E i \in DOMAIN f : f[i] = ch
STAR == 42  AT == 64  DOLLAR == 36  GREATER == 62
Kind(r) == IF Has(r[1], STAR) THEN "stitch" ELSE IF Has(r[1], Hash) THEN "title" ELSE IF Has(r[1], AT) THEN "metadata"
           ELSE IF Has(r[1], DOLLAR) THEN "thread" ELSE IF r[1] = <<GREATER>> THEN "data" ELSE "other"
Field(r, i) == IF i <= Len(r) THEN r[i] ELSE << >>
StitchOf(r) == LET b == CommandOf(r[3])
               IN IF Len(r) = 3 THEN <<0, 0>> \o b ELSE <<Milli(r[4]), Milli(r[5])>> \o b
\* number, colour, description, brand, catalog number, details, weight, chart; or number, r, g, b, description, catalog number
ThreadOf(r) ==
  IF Len(r) = 7 /\ \A i \in 3..5 : Len(r[i]) <= 3
  THEN <<Rgb(Number(r[3]), Number(r[4]), Number(r[5])), r[6], r[7], << >>, << >>, << >>, << >> >>
  ELSE <<TextValue(r[3]), Field(r, 4), Field(r, 6), Field(r, 7), Field(r, 5), Field(r, 9), Field(r, 8)>>
Pick(rows, k) == SelectSeq(rows, LAMBDA r : Kind(r) = k)
\* the last value of a key wins
ExtOf(rows) == LET m == SelectSeq(Pick(rows, "metadata"), LAMBDA r : Len(r) = 3)
               IN {<<m[i][2], m[i][3]>> : i \in {i \in DOMAIN m : \A j \in DOMAIN m : j > i => m[j][2] # m[i][2]}}
DesignOf(rows) == [q |-> LET s == Pick(rows, "stitch") IN [i \in DOMAIN s |-> StitchOf(s[i])],
                   thr |-> LET s == Pick(rows, "thread") IN [i \in DOMAIN s |-> ThreadOf(s[i])],
                   ext |-> ExtOf(rows)]
\* the counts and extents at the head
Extent(q, k) == IF q = << >> THEN <<0, 0>> ELSE LET s == {q[i][k] : i \in DOMAIN q} IN <<Min(s), Max(s)>>
CountOf(q, f) == Cardinality({i \in DOMAIN q : q[i][3] = f})
=============================================================================
