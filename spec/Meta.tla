-------------------------------- MODULE Meta --------------------------------
(* Text metadata: which texts each format carries and how they come back.      *)
(* A design's metadata is a set of <<key, text>> pairs, keys as lists of code   *)
(* points too.                                                                  *)
EXTENDS Csv
White == {9, 10, 11, 12, 13, 32}
RECURSIVE StripL(_)
StripL(t) == IF t # << >> /\ t[1] \in White THEN StripL(Tail(t)) ELSE t
RECURSIVE StripR(_)
StripR(t) == IF t # << >> /\ t[Len(t)] \in White THEN StripR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == StripR(StripL(t))
\* one line: line ends and the header's end mark become spaces
OneLine(t) == LET w == FoldLeft(LAMBDA a, ch : IF ch = LF /\ a.cr THEN [a EXCEPT !.cr = FALSE]
                                            ELSE [t |-> Append(a.t, IF ch \in {CR, LF, 26} THEN SPACE ELSE ch), cr |-> ch = CR],
                                [t |-> << >>, cr |-> FALSE], t)
              IN w.t
KName == <<110, 97, 109, 101>>
KLabel == <<78, 97, 109, 101>>
KAuthor == <<97, 117, 116, 104, 111, 114>>
KCopyright == <<99, 111, 112, 121, 114, 105, 103, 104, 116>>
KCategory == <<99, 97, 116, 101, 103, 111, 114, 121>>
KKeywords == <<107, 101, 121, 119, 111, 114, 100, 115>>
KComments == <<99, 111, 109, 109, 101, 110, 116, 115>>
Keys == {KName, KLabel, KAuthor, KCopyright, KCategory, KKeywords, KComments}
Untitled == <<85, 110, 116, 105, 116, 108, 101, 100>>
Has_(E, k) == \E e \in E : e[1] = k
Get(E, k) == (CHOOSE e \in E : e[1] = k)[2]
GetOr(E, k, d) == IF Has_(E, k) THEN Get(E, k) ELSE d
\* kept when there is something to keep
Some(k, t) == IF t = << >> THEN {} ELSE {<<k, t>>}
Head8(t) == SubSeq(t, 1, MinOf(8, Len(t)))
Label(E) == <<KLabel, Strip(Fit(Head8(GetOr(E, KName, Untitled)), 16))>>
DSTHEAD == 124          \* where an extended DST header starts its free part
DstName(E) == Some(KName, Strip(Fit(OneLine(GetOr(E, KName, Untitled)), 16)))
\* a line takes "AU:", the text and the line end; one byte is left for the end mark
DstExtra(E) ==
  LET a == Fit(OneLine(GetOr(E, KAuthor, << >>)), 512 - DSTHEAD - 5)
      at == DSTHEAD + IF Has_(E, KAuthor) THEN 4 + ByteLen(a) ELSE 0
      room == 512 - at - 5
      c == Fit(OneLine(GetOr(E, KCopyright, << >>)), MaxOf(room, 0))
  IN Some(KAuthor, Strip(a)) \cup IF room > 0 THEN Some(KCopyright, Strip(c)) ELSE {}
PesKeys == {KName, KCategory, KAuthor, KKeywords, KComments}
\* what reads back of the metadata E from a file of this format
CarriedExt(fmt, E) ==
  CASE fmt = "dst" -> DstName(E)
    [] fmt = "dstx" -> DstName(E) \cup DstExtra(E)
    [] fmt \in {"pec", "pes1"} -> {Label(E)}
    [] fmt = "pes6" -> {Label(E)} \cup UNION {Some(k, Fit(GetOr(E, k, << >>), 255)) : k \in PesKeys}
    [] fmt = "tbf" -> {<<KName, Strip(Fit(GetOr(E, KName, Untitled), 16))>>}
    [] fmt \in {"csv", "json"} -> E
    [] OTHER -> {}
Only(E) == {e \in E : e[1] \in Keys}
RECURSIVE Through(_, _)
Through(fmts, E) == IF fmts = << >> THEN E ELSE Through(Tail(fmts), Only(CarriedExt(fmts[1], E)))
\* where a file may differ when only its metadata does: bytes from..to (0-based), the rest in place
NameField(fmt, base) == CASE fmt = "dst" -> <<3, 18>> [] fmt = "tbf" -> <<131, 146>> [] fmt \in {"pec", "pes1"} -> <<base + 3, base + 18>>
                          [] fmt = "dstx" -> <<3, 511>> [] OTHER -> <<1, 0>>
=============================================================================
