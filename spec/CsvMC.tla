------------------------------- MODULE CsvMC -------------------------------
(* The CSV grammar on all small rows: what is quoted reads back; the texts of *)
(* commands and numbers read back; line ends and bare fields.                 *)
EXTENDS Csv
CONSTANT N
Alphabet == {QUOTE, COMMA, LF, CR, 97}
VARIABLES f, b, n
vars == <<f, b, n>>
Init == f = << << >> >> /\ b = <<0, 0, 0, 0>> /\ n = 0
Text == b = <<0, 0, 0, 0>> /\ n = 0
Type == Text /\ Len(f) <= 2 /\ Len(Last(f)) < N /\ \E ch \in Alphabet : f' = [f EXCEPT ![Len(f)] = Append(@, ch)] /\ UNCHANGED <<b, n>>
NextField == Text /\ Len(f) < 2 /\ f' = Append(f, << >>) /\ UNCHANGED <<b, n>>
Command == f = << << >> >> /\ n = 0 /\ b = <<0, 0, 0, 0>>
           /\ \E i \in DOMAIN CommandNames, t, d, o \in {0, 1, 2, 100, 255} : b' = <<CommandNames[i][2], t, d, o>> /\ UNCHANGED <<f, n>>
Count == f = << << >> >> /\ b = <<0, 0, 0, 0>> /\ n < 1200 /\ n' = n + 7 /\ UNCHANGED <<f, b>>
Next == Type \/ NextField \/ Command \/ Count
Spec == Init /\ [][Next]_vars
\* the reader of a quoted line sees the fields
ReadsBack == Rows(Line(f)) = <<f>>
Twice == Rows(Line(f) \o <<LF>> \o Line(f)) = <<f, f>>
\* without quotes, when nothing needs them
Bare_ == (\A i \in DOMAIN f : f[i] # << >> /\ \A j \in DOMAIN f[i] : f[i][j] = 97)
         => LET t == FlattenSeq([i \in DOMAIN f |-> (IF i > 1 THEN <<COMMA>> ELSE << >>) \o f[i]])
            IN Rows(t) = <<f>> /\ Rows(t \o <<CR, LF>> \o t \o <<CR>>) = <<f, f>>
Commands_ == CommandOf(CommandText(b)) = b
Numbers == /\ Number(Digits(n)) = n /\ Milli(Digits(n)) = 1000 * n /\ Milli(<<45>> \o Digits(n) \o <<46, 50, 53>>) = -1000 * n - 250
           /\ LET p == Packed(Digits(n)) IN p[1] + 256 * p[2] = n /\ p[3] = 0 /\ p[4] = 0
Distinct_ == \A i, j \in DOMAIN CommandNames : i # j => CommandNames[i][1] # CommandNames[j][1] /\ CommandNames[i][2] # CommandNames[j][2]
=============================================================================
