---------------------------- MODULE CompressTrace ----------------------------
(* Trace specification of expansion (P23).  The machine expands each recorded   *)
(* stream step by step; what the code returned is compared at the end.          *)
(*  kind "stream": b was expanded to at most size bytes (-1: no limit)          *)
(*  kind "store": data was compressed to b and expanded again                   *)
(*  kind "hus": a design file of three streams standing for cmd, x and y        *)
EXTENDS Compress, Palettes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, s
vars == <<c, pc, s>>
Init == c \in DOMAIN Cases /\ pc = 0 /\ s = Start0
Clause(name, holds) == IF holds THEN {} ELSE {name}
Running == Cases[c].kind # "hus" /\ Cases[c].ok /\ Cases[c].follow /\ ~Ended(s, Cases[c].b, Cases[c].size)
Follow == pc = 0 /\ Running /\ s' = Step(s, Cases[c].b) /\ UNCHANGED <<c, pc>>

Signed(v) == IF v > 127 THEN v - 256 ELSE v
\* the design of a HUS file: y up, a trim is where the needle has moved to
HusStep(w, i, C) ==
  LET x == w.x + Signed(C.xs[i])
      y == w.y - Signed(C.ys[i])
      moved == x # w.x \/ y # w.y
      add(l) == [w EXCEPT !.x = x, !.y = y, !.out = @ \o l]
  IN IF w.end THEN w
     ELSE CASE C.cmds[i] = 128 -> add(<<<<x, y, 0>>>>)
            [] C.cmds[i] = 129 -> add(<<<<x, y, 1>>>>)
            [] C.cmds[i] = 132 -> add(<<<<x, y, 5>>>>)
            [] C.cmds[i] = 136 -> add((IF moved THEN <<<<x, y, 1>>>> ELSE << >>) \o <<<<x, y, 2>>>>)
            [] OTHER -> [w EXCEPT !.end = TRUE]
Hus(C) == LET w == FoldLeft(LAMBDA a, i : HusStep(a, i, C), [x |-> 0, y |-> 0, out |-> << >>, end |-> FALSE], [i \in 1..Len(C.cmds) |-> i])
          IN Append(w.out, <<w.x, w.y, 4>>)
Verdict ==
  LET C == Cases[c]
  IN IF ~C.ok THEN {"expand.raised"}
     ELSE CASE C.kind = "hus" -> Clause("hus.commands", C.out = Hus(C)) \cup Clause("hus.threads", C.thr = [i \in DOMAIN C.wthr |-> HusPalette[C.wthr[i] + 1]])
            [] C.kind = "store" -> Clause("expand.stored", C.back = C.orig)
                                   \cup Clause("expand.limit", C.part = SubSeq(C.orig, 1, C.cut))
                                   \cup (IF C.follow THEN Clause("expand.store_form", s.valid /\ Result(s, C.size) = C.orig) ELSE {})
            [] OTHER -> IF ~s.valid \/ Result(s, C.size) # C.orig THEN Assert(FALSE, <<"not a valid stream", C.b>>)
                        ELSE Clause("expand.bytes", C.out = Result(s, C.size))
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c] IN PrintT(<<"want", IF C.kind = "hus" THEN Hus(C) ELSE Result(s, C.size), "got", IF C.ok THEN C.out ELSE << >> >>)
Judge == pc = 0 /\ ~Running /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED <<c, s>>
Done == pc = 1 /\ UNCHANGED vars
Next == Follow \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
