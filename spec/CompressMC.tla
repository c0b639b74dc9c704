----------------------------- MODULE CompressMC -----------------------------
(* Every short text of literals, back-references and an end, in every small    *)
(* code and split into blocks in every way, expands to what it stands for.     *)
EXTENDS Compress
CONSTANTS N
VARIABLES ls, ds, toks, b, s, stage
vars == <<ls, ds, toks, b, s, stage>>
\* code lengths of the characters (0, 1, 256, 258, 510) and of the distances 0, 1, 2-3, 4-7
CharCodes == {<<1, 2, 3, 4, 4>>, <<4, 4, 3, 2, 1>>, <<2, 2, 2, 3, 3>>, <<3, 1, 3, 3, 3>>}
DistCodes == {<<1, 1>>, <<1, 2, 2>>, <<2, 0, 1, 2>>, <<3, 3, 2, 1>>, << >>}
Chars == <<0, 1, 256, 258, 510>>
Full(k) == [i \in 1..511 |-> IF \E j \in DOMAIN Chars : Chars[j] = i - 1 THEN k[CHOOSE j \in DOMAIN Chars : Chars[j] = i - 1] ELSE 0]
\* lengths of the code of the code lengths: symbols 0 (none), 2 (a run), 3, 4, 5, 6
LenCode == <<2, 0, 2, 3, 3, 3, 3>>
Lt == Table(LenCode)
\* the character lengths, the two long runs of zeros as runs
PutFull(k) == Binary(511, 9) \o CodeOf(Lt, k[1] + 2) \o CodeOf(Lt, k[2] + 2)
                \o CodeOf(Lt, 2) \o Binary(254 - 20, 9) \o CodeOf(Lt, k[3] + 2) \o CodeOf(Lt, 0) \o CodeOf(Lt, k[4] + 2)
                \o CodeOf(Lt, 2) \o Binary(251 - 20, 9) \o CodeOf(Lt, k[5] + 2)
Ct == Table(Full(ls))
Dt == IF ds = << >> THEN Constant(0) ELSE Table(ds)
HasDist(x) == IF ds = << >> THEN x = 0 ELSE DistSym(x) + 1 \in DOMAIN ds /\ ds[DistSym(x) + 1] > 0
Tokens == {<<0, 0>>, <<1, 0>>} \cup {<<c, x>> : c \in {256, 258}, x \in {x \in 0..5 : HasDist(x)}} \cup {<<510, 0>>}
RECURSIVE Meaning(_)
Meaning(t) == IF t = << >> THEN << >>
              ELSE LET m == Meaning(SubSeq(t, 1, Len(t) - 1))
                       z == t[Len(t)]
                   IN IF z[1] < 256 THEN Append(m, z[1]) ELSE IF z[1] = 510 THEN m ELSE Copy(m, z[2] + 1, z[1] - 253)
Legal(t, k) == /\ (t # << >> => t[Len(t)][1] # 510)
               /\ (k[1] \in {256, 258} => k[2] + 1 <= Len(Meaning(t)))
PutToken(k) == CodeOf(Ct, k[1]) \o (IF k[1] \in {256, 258} THEN PutDist(Dt, k[2]) ELSE << >>)
Opening == PutSkipping(LenCode, TRUE) \o PutFull(ls) \o (IF ds = << >> THEN Binary(0, 5) \o Binary(0, 5) ELSE PutLengths(ds))
Block(ts) == Binary(Len(ts), 16) \o Opening \o FlattenSeq([i \in DOMAIN ts |-> PutToken(ts[i])])
\* one block, or cut in two after the first token
Stream(cut) == Bytes(IF cut /\ Len(toks) > 1 THEN Block(SubSeq(toks, 1, 1)) \o Block(SubSeq(toks, 2, Len(toks))) ELSE Block(toks))
Init == ls \in CharCodes /\ ds \in DistCodes /\ toks = << >> /\ b = << >> /\ s = Start0 /\ stage = "build"
Add == stage = "build" /\ Len(toks) < N /\ \E k \in Tokens : Legal(toks, k) /\ toks' = Append(toks, k) /\ UNCHANGED <<ls, ds, b, s, stage>>
Begin == stage = "build" /\ toks # << >> /\ \E cut \in BOOLEAN : b' = Stream(cut) /\ stage' = "run" /\ UNCHANGED <<ls, ds, toks, s>>
Expand == /\ stage = "run"
          /\ ~Ended(s, b, Len(Meaning(toks)))
          /\ s' = Step(s, b)
          /\ UNCHANGED <<ls, ds, toks, b, stage>>
Next == Add \/ Begin \/ Expand
Spec == Init /\ [][Next]_vars
SoFar == IsPrefix(s.out, Meaning(toks))
Whole == stage = "run" /\ Ended(s, b, Len(Meaning(toks))) => s.valid /\ s.out = Meaning(toks)
Codes == toks = << >> => Complete(Lt) /\ Complete(Ct) /\ Complete(Dt)
StoredTables == toks = << >> =>
  LET l == Load(Start0, StoredHead(5)) IN l.valid /\ l.left = 5 /\ l.p = 48 /\ \A i \in 1..256 : l.chars.codes[i] = <<256 * (i - 1), 8, i - 1>>
=============================================================================
