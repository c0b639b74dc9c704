------------------------------ MODULE PatTrace -------------------------------
(* Trace specification of designs as values: the composition API (P17),       *)
(* merging (P18), block views (P19), reinterpretations (P20) and stops (P16). *)
EXTENDS Pattern, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, st, bad
vars == <<c, pos, st, bad>>
Init == c \in DOMAIN Cases /\ pos = 1 /\ st = Empty /\ bad = {}
Clause(name, holds) == IF holds THEN {} ELSE {name}
Set(l) == {l[i] : i \in DOMAIN l}
\* threads: a filler may be anything
SameThr(a, w) == Len(a) = Len(w) /\ \A i \in DOMAIN w : w[i] = -1 \/ a[i] = w[i]
NoNop(q) == Filter(q, LAMBDA s : s[3] # 255)
Blind(s) == IF s[3] \in {STITCHBREAK, SEQBREAK, COLORBREAK} THEN [s EXCEPT ![1] = 0, ![2] = 0] ELSE s
SameQ(a, b) == [i \in DOMAIN a |-> Blind(a[i])] = [i \in DOMAIN b |-> Blind(b[i])]

\* what a design tells about itself after each call
Seen(P, o) ==
  Clause("api.commands", o.q = P.q)
  \cup Clause("api.threads", SameThr(o.thr, P.thr) /\ o.nthr = Len(P.thr))
  \cup Clause("api.metadata", Set(o.ext) = P.ext /\ Len(o.ext) = Cardinality(P.ext))
  \cup Clause("api.length", o.len = Len(P.q) /\ o.stitches = Len(P.q))
  \cup Clause("api.bounds", o.bounds = Bounds(P.q))
  \cup Clause("api.counts", \A i \in DOMAIN o.counts : o.counts[i][2] = Cnt(P.q, {o.counts[i][1]}))
  \cup Clause("api.changes", o.changes = Cnt(P.q, {COLORCHANGE}) /\ o.needles = Cnt(P.q, {NEEDLESET}))
  \cup Clause("api.match", \A i \in DOMAIN o.match : o.match[i][2] = Filter(P.q, LAMBDA s : s[3] = o.match[i][1]))
  \cup Clause("api.index", \A i \in DOMAIN o.items : o.items[i][2] = P.q[Place(Len(P.q), o.items[i][1]) + 1])
  \cup Clause("api.decode", o.decode = P.q)
  \cup Clause("api.thread", \A i \in DOMAIN o.tget : IF o.tget[i][1] < Len(P.thr) THEN P.thr[o.tget[i][1] + 1] \in {-1, o.tget[i][2]}
                                                     ELSE TRUE)
  \cup Clause("api.singleton", (\A i \in DOMAIN P.thr : P.thr[i] # -1) =>
          LET k == SelectSeq([i \in DOMAIN P.thr |-> i], LAMBDA i : i = 1 \/ P.thr[i] # P.thr[i - 1])
          IN o.single = [i \in DOMAIN k |-> P.thr[k[i]]] /\ Set(o.unique) = Set(P.thr) /\ Len(o.unique) = Cardinality(Set(P.thr)))
  \cup Clause("api.equal", o.same /\ ~o.other)

Blocks(C) ==
  LET thr(k) == IF k <= Len(C.thr) THEN C.thr[k] ELSE -1
      same(a, w) == /\ Len(a) = Len(w)
                    /\ \A i \in DOMAIN w : a[i][1] = SubSeq(C.q, w[i][1], w[i][2]) /\ a[i][2] # -1 /\ thr(w[i][3]) \in {-1, a[i][2]}
      cmd == CommandBlocks(C.q)
  IN Clause("blocks.color", same(C.cb, ColorBlocks(C.q)))
     \cup Clause("blocks.stitch", same(C.sb, StitchBlocks(C.q)))
     \cup Clause("blocks.command", Len(C.cmd) = Len(cmd) /\ \A i \in DOMAIN cmd : C.cmd[i] = SubSeq(C.q, cmd[i][1], cmd[i][2]))

PostOf(C) ==
  LET a == C.arg
  IN CASE C.op = "trims" -> [q |-> InterpTrims(C.q, a.cnt, a.dist, a.clip, <<0, 0, 0>>), thr |-> C.thr]
       [] C.op = "dup" -> DupAsStop(C.q, C.thr)
       [] C.op = "stop" -> StopAsDup(C.q, C.thr, a.cnt)
       [] C.op = "frame" -> [q |-> FrameEjects(C.q), thr |-> C.thr]
       [] C.op = "merge_jumps" -> [q |-> MergeJumps(C.q), thr |-> C.thr]
       [] C.op = "jump_trims" -> [q |-> JumpTrims(C.q, a.cnt), thr |-> C.thr]
       [] C.op = "stable" -> LET s == Stable(C.q)
                             IN [q |-> s.q, thr |-> [i \in DOMAIN s.thr |-> IF s.thr[i] <= Len(C.thr) THEN C.thr[s.thr[i]] ELSE -1]]
       [] C.op = "fix" -> [q |-> C.q, thr |-> FillTo(C.thr, ThreadWalk(C.q).need)]
       [] C.op = "round" -> LET s == StopAsDup(C.q, C.thr, COLORCHANGE) IN DupAsStop(s.q, s.thr)
PostV(C) == LET w == PostOf(C)
            IN Clause("post.commands." \o C.op, SameQ(C.res, w.q)) \cup Clause("post.threads." \o C.op, SameThr(C.rthr, w.thr))
               \cup Clause("post.metadata." \o C.op, C.ext) \cup Clause("post.source." \o C.op, C.kept)
\* A, B: designs, times: how often B was added
RECURSIVE Merged(_, _, _, _)
Merged(A, B, mv, n) == IF n = 0 THEN A ELSE Merged(Merge(A, B, mv), B, mv, n - 1)
Design(d) == [q |-> d.q, thr |-> d.thr, ext |-> Set(d.ext), cur |-> d.cur]
MergeV(C) == LET w == Merged(Design(C.A), Design(C.B), C.mv, C.times)
             IN Clause("merge.commands", NoNop(C.res) = NoNop(w.q)) \cup Clause("merge.threads", SameThr(C.rthr, w.thr))
                \cup Clause("merge.metadata", Set(C.rext) = w.ext) \cup Clause("merge.source", C.kept)
\* a file in which a stop is a repeated colour; idx: its palette entries, as numbered from the first of each
\* PEC sews once more where a jump ends
NoRests(q) == LET k == SelectSeq([i \in DOMAIN q |-> i],
                  LAMBDA i : q[i][3] # STITCH \/ <<q[i][1], q[i][2]>> # At(q, i - 1)) IN [i \in DOMAIN k |-> q[k[i]]]
\* JEF: a stop is entry 0; the next one in the same block goes back to the block's entry
JefBack(q) ==
  FoldLeft(LAMBDA w, s : IF s[3] = COLORCHANGE THEN [out |-> Append(w.out, s), odd |-> FALSE]
                         ELSE IF s[3] # STOP THEN [w EXCEPT !.out = Append(@, s)]
                         ELSE [out |-> Append(w.out, IF w.odd THEN As(s, COLORCHANGE) ELSE s), odd |-> ~w.odd],
           [out |-> << >>, odd |-> FALSE], q).out
Distinct(thr) == [i \in DOMAIN thr |-> IF thr[i] = -1 THEN -1 - i ELSE thr[i]]
FileV(C) ==
  LET need == ThreadWalk(C.q).need
      s == StopAsDup(C.q, Distinct(FillTo(C.thr, need)), COLORCHANGE)
      changes == Cnt(s.q, {COLORCHANGE})
      entries == SubSeq(s.thr, 1, MinOf(changes + 1, Len(s.thr)))
      given(i) == entries[i] >= 0 \/ (i > 1 /\ entries[i] = entries[i - 1])
  IN Clause("file.entries", C.fmt # "jef" => \A i \in DOMAIN entries : i > 1 /\ i <= Len(C.idx) /\ given(i) =>
                 (entries[i] = entries[i - 1]) = (C.idx[i] = C.idx[i - 1]))
     \cup Clause("file.count", Len(C.idx) >= Len(entries))
     \cup Clause("file.commands", IF C.fmt = "jef" THEN C.res = JefBack(C.q) ELSE NoRests(C.res) = C.q)
     \cup Clause("file.threads", Len(C.rthr) >= 1 + Cnt(C.q, {COLORCHANGE}))

Judged(C) == IF ~C.ok THEN {C.kind \o ".raised"}
             ELSE CASE C.kind = "blocks" -> Blocks(C) [] C.kind = "post" -> PostV(C) [] C.kind = "merge" -> MergeV(C)
                    [] C.kind = "file" -> FileV(C)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c]
                IN PrintT(CASE C.kind = "post" -> <<"want", PostOf(C), "got", C.res, C.rthr>>
                            [] C.kind = "merge" -> <<"want", Merged(Design(C.A), Design(C.B), C.mv, C.times), "got", C.res, C.rthr>>
                            [] C.kind = "file" -> <<"want", C.q, "got", C.res>>
                            [] OTHER -> <<C.kind, bad>>)
IsApi == Cases[c].kind = "api"
Step == /\ IsApi /\ pos > 0 /\ pos <= Len(Cases[c].steps)
        /\ LET s == Cases[c].steps[pos]
               n == Apply(st, s.o)
               v == IF ~s.ok THEN {"api.raised"} ELSE Seen(n, s.obs)
           IN /\ st' = n /\ bad' = bad \cup v
              /\ (("EXPLAIN" \in DOMAIN IOEnv /\ v # {}) => PrintT(<<pos, s.o, "want", n, "got", s.obs, v>>))
        /\ pos' = pos + 1 /\ UNCHANGED c
Judge == /\ pos > 0 /\ (IsApi => pos = Len(Cases[c].steps) + 1)
         /\ Explain
         /\ PrintT(<<"VERDICT", c, IF IsApi THEN bad ELSE Judged(Cases[c])>>)
         /\ pos' = 0 /\ UNCHANGED <<c, st, bad>>
Done == pos = 0 /\ UNCHANGED vars
Next == Step \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
