----------------------------- MODULE ThreadTrace -----------------------------
(* Trace specification of threads (P24, P11): each case is one recorded use.  *)
EXTENDS Threads, Palettes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}

\* what the given form denotes
Value(f) == CASE f.form = "text" -> TextValue(f.text)
              [] f.form = "hex" -> HexValue(IF f.text[1] = Hash THEN Tail(f.text) ELSE f.text)
              [] f.form = "number" -> f.low
              [] f.form = "rgb" -> Rgb(f.rgb[1], f.rgb[2], f.rgb[3])
Set(C) == Clause("set.value", C.color = Value(C.f))
          \cup Clause("set.channels", C.chan = <<R(C.color), G(C.color), B(C.color)>>)
          \cup Clause("set.hex", C.hex = HexText(C.color))
          \cup Clause("set.texts", C.texts = C.want)
          \cup Clause("set.opaque", C.opaque = <<255, C.color>>)
          \cup Clause("set.printed", C.again = <<C.color, C.texts>> /\ C.same)
Eq(C) ==
  LET n == Len(C.thr)
  IN Clause("eq.equal", \A i, j \in 1..n : C.eq[i][j] = Equal(C.thr[i], C.thr[j]))
     \cup Clause("eq.unequal", \A i, j \in 1..n : C.ne[i][j] = ~C.eq[i][j])
     \cup Clause("eq.hash", \A i, j \in 1..n : C.eq[i][j] => C.hash[i] = C.hash[j])
     \cup Clause("eq.number", \A i, j \in 1..n : C.num[i][j] = (C.thr[i][1] = C.thr[j][1]))
     \cup Clause("eq.text", \A i \in 1..n, j \in DOMAIN C.texts : C.txt[i][j] = (C.thr[i][1] = TextValue(C.texts[j])))
     \cup Clause("eq.repr", \A i \in 1..n : C.rep[i] = C.thr[i])
     \cup Clause("eq.other", \A i \in 1..n : ~C.other[i])
Near_(C) == LET e == Entries(C.pal)
            IN Clause("near.index", IF e = {} THEN C.idx = 0 ELSE C.idx # 0 /\ Nearest(C.pal, C.color, e, C.idx))
Pal(C) ==
  LET p == IF C.pal = "given" THEN C.entries ELSE Palette(C.pal)
  IN Clause("pal." \o C.rule,
       CASE C.rule = "unique" -> Unique(p, C.thr, C.idx)
         [] C.rule = "nonrepeat" -> NonRepeat(p, C.thr, C.idx)
         [] C.rule = "any" -> Plain(p, C.thr, C.idx))
Carry(C) == LET w == CarriedList(C.fmt, C.thr)
                n == IF C.fmt = "dstx" THEN DstFits(C.thr, C.base) ELSE Len(w)
            IN Clause("carry." \o C.fmt, C.res = SubSeq(w, 1, n))
Verdict == LET C == Cases[c]
           IN IF ~C.ok THEN {C.kind \o ".raised"}
              ELSE CASE C.kind = "set" -> Set(C) [] C.kind = "eq" -> Eq(C) [] C.kind = "near" -> Near_(C)
                     [] C.kind = "pal" -> Pal(C) [] C.kind = "carry" -> Carry(C)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c]
                IN PrintT(CASE C.kind = "set" -> <<"value", Value(C.f), "got", C.color>>
                            [] C.kind = "carry" -> <<"want", CarriedList(C.fmt, C.thr), "got", C.res>>
                            [] OTHER -> <<C>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
