------------------------------- MODULE Threads -------------------------------
(* Threads: colours however they are given, equality, nearness, palettes and  *)
(* the fields each format carries.                                            *)
(* A colour is 0..2^24-1.  A text is the list of its code points; the absent  *)
(* text is << >>.  A thread is <<rgb, description, catalog number, details,   *)
(* brand, chart, weight>>.                                                    *)
EXTENDS Cmds, Names

R(c) == (c \div 65536) % 256
G(c) == (c \div 256) % 256
B(c) == c % 256
Rgb(r, g, b) == (r % 256) * 65536 + (g % 256) * 256 + (b % 256)

(* --- text forms of a colour ----------------------------------------------- *)
HexDigit(ch) == CASE ch \in 48..57 -> ch - 48
                  [] ch \in 97..102 -> ch - 87
                  [] ch \in 65..70 -> ch - 55
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hash == 35
\* 3 or 4 digits: each doubled; 6 or 8: pairs; what follows the blue channel is alpha
HexValue(h) == IF Len(h) \in {3, 4} THEN Rgb(17 * HexDigit(h[1]), 17 * HexDigit(h[2]), 17 * HexDigit(h[3]))
               ELSE Rgb(16 * HexDigit(h[1]) + HexDigit(h[2]), 16 * HexDigit(h[3]) + HexDigit(h[4]),
                        16 * HexDigit(h[5]) + HexDigit(h[6]))
HexText(c) == <<Hash>> \o [k \in 1..6 |-> HexChar((CASE k = 1 -> R(c) \div 16 [] k = 2 -> R(c) % 16
                                                    [] k = 3 -> G(c) \div 16 [] k = 4 -> G(c) % 16
                                                    [] k = 5 -> B(c) \div 16 [] k = 6 -> B(c) % 16))]
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
NameValue(t) == LET k == {i \in DOMAIN Names : Names[i][1] = Lower(t)}
                IN IF k = {} THEN 0 ELSE Names[CHOOSE i \in k : TRUE][2]
TextValue(t) == IF t # << >> /\ t[1] = Hash THEN HexValue(Tail(t)) ELSE NameValue(t)

(* --- equality ------------------------------------------------------------- *)
Equal(s, t) == s = t       \* colour and all six texts

(* --- the red-mean metric, times 512 (exact) ------------------------------- *)
Sq(a) == a * a
Dist(c, d) == LET s == R(c) + R(d)
              IN (1024 + s) * Sq(R(c) - R(d)) + 2048 * Sq(G(c) - G(d)) + (1534 - s) * Sq(B(c) - B(d))
\* what integer evaluation of the metric may be off by
Slack(c, d) == 512 + Abs(Sq(R(c) - R(d)) - Sq(B(c) - B(d)))
Beats(c, e, d) == Dist(c, e) + Slack(c, e) < Dist(c, d) - Slack(c, d)
\* entry k (1-based; -1 in the palette: no thread) is as near to c as any of the entries in ok
Nearest(p, c, ok, k) == /\ k \in ok /\ p[k] # -1
                        /\ \A j \in ok : p[j] # -1 => ~Beats(c, p[j], p[k])
Entries(p) == {k \in DOMAIN p : p[k] # -1}

(* --- palette rules; idx: 1-based entries chosen, thr: the threads --------- *)
Plain(p, thr, idx) == Len(idx) = Len(thr) /\ \A i \in DOMAIN thr : Nearest(p, thr[i][1], Entries(p), idx[i])
Range_(q) == {q[i] : i \in DOMAIN q}
\* some order of the different threads gives each the nearest of what is left
RECURSIVE Peel(_, _, _)
Peel(p, who, ent) ==
  IF who = {} THEN TRUE
  ELSE LET left == Entries(p) \ {ent[t] : t \in (DOMAIN ent) \ who}
           first == {t \in who : Nearest(p, t[1], left, ent[t])}
       IN first # {} /\ Peel(p, who \ first, ent)
Unique(p, thr, idx) ==
  LET who == Range_(thr)
      ent == [t \in who |-> idx[CHOOSE i \in DOMAIN thr : thr[i] = t]]
  IN /\ Len(idx) = Len(thr)
     /\ \A i \in DOMAIN thr : idx[i] \in Entries(p) /\ idx[i] = ent[thr[i]]
     /\ IF Cardinality(who) <= Cardinality(Entries(p))
        THEN Cardinality({ent[t] : t \in who}) = Cardinality(who) /\ Peel(p, who, ent)
        ELSE {ent[t] : t \in who} = Entries(p)
NonRepeat(p, thr, idx) ==
  /\ Len(idx) = Len(thr)
  /\ \A i \in DOMAIN thr :
       IF i > 1 /\ thr[i] = thr[i - 1] THEN idx[i] = idx[i - 1]
       ELSE LET e == Entries(p)
            IN \/ /\ Nearest(p, thr[i][1], e, idx[i]) /\ (i > 1 => idx[i] # idx[i - 1])
               \/ /\ i > 1 /\ Nearest(p, thr[i][1], e \ {idx[i - 1]}, idx[i])
                  \* the entry of the thread before is out only if it is a nearest one
                  /\ Nearest(p, thr[i][1], e, idx[i - 1])

(* --- utf8 and the fields the formats carry -------------------------------- *)
Utf8Len(ch) == IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
ByteLen(t) == FoldLeft(LAMBDA a, ch : a + Utf8Len(ch), 0, t)
\* the longest beginning of at most n bytes
Fit(t, n) == LET w == FoldLeft(LAMBDA a, ch : IF a.full \/ a.b + Utf8Len(ch) > n THEN [a EXCEPT !.full = TRUE]
                                             ELSE [a EXCEPT !.b = @ + Utf8Len(ch), !.k = @ + 1], [b |-> 0, k |-> 0, full |-> FALSE], t)
             IN SubSeq(t, 1, w.k)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Unknown == <<85, 110, 107, 110, 111, 119, 110>>
OrElse(t, u) == IF t = << >> THEN u ELSE t
Carried(fmt, t, i) ==      \* the i-th thread (0-based) as it comes back
  CASE fmt \in {"csv", "json"} -> t
    [] fmt = "pes6" -> <<t[1], Fit(t[2], 255), Fit(t[3], 255), << >>, Fit(t[5], 255), Fit(t[6], 255), << >> >>
    [] fmt = "vp3" -> <<t[1], OrElse(t[2], HexText(t[1])), t[3], << >>, t[5], << >>, << >> >>
    [] fmt \in {"xxx", "tbf", "edr"} -> <<t[1], << >>, << >>, << >>, << >>, << >>, << >> >>
    [] fmt = "col" -> <<t[1], << >>, Digits(i), << >>, << >>, << >>, << >> >>
    [] fmt = "inf" -> <<t[1], OrElse(t[2], Unknown), << >>, << >>, << >>, OrElse(t[6], Unknown), << >> >>
    [] fmt = "dstx" -> <<t[1], t[2], t[3], << >>, << >>, << >>, << >> >>
CarriedList(fmt, thr) == [i \in DOMAIN thr |-> Carried(fmt, thr[i], i - 1)]
\* the threads of an extended DST header: as many lines as fit 512 bytes, one for the end mark
DstLine(t) == 3 + 7 + 2 + ByteLen(t[2]) + ByteLen(t[3]) + 1
DstFits(thr, base) == LET room(n) == base + FoldLeft(LAMBDA a, t : a + DstLine(t), 0, SubSeq(thr, 1, n)) <= 511
                      IN CHOOSE n \in 0..Len(thr) : room(n) /\ (n = Len(thr) \/ ~room(n + 1))
=============================================================================
