------------------------------- MODULE FmtTrace ------------------------------
(* Trace specification of the stitch formats.  A case is one recorded run of *)
(* the real code:                                                            *)
(*  kind "w": a low-level design q was written; bytes is the file            *)
(*  kind "r": the file bytes was read; res is the design the reader gave     *)
(*  kind "e": q was written and read back by the real code (res)             *)
EXTENDS Held, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0

\* every position reached in the file against the design's
HalfOk(C, d) ==
  LET keep == IF C.fmt \in {"dst", "vp3", "gcode"} THEN {STITCH, SEQEJECT} ELSE {STITCH, SEQEJECT, JUMP}
      m == Filter(d, LAMBDA s : s[3] \in keep)
      w == Filter(Upto(DesignOf(C)), LAMBDA s : s[3] \in keep)
      pos(i) == IF i = 0 THEN <<0, 0>> ELSE <<m[i][1], m[i][2]>>
      \* PEC sews where it lands: an entry at the position before it
      mm == IF C.fmt = "pec" THEN LET ix == SelectSeq([i \in DOMAIN m |-> i], LAMBDA i : pos(i) # pos(i - 1))
                                 IN [i \in DOMAIN ix |-> m[ix[i]]]
            ELSE m
  IN /\ Len(mm) = Len(w)
     /\ \A i \in DOMAIN w : Near(mm[i][1], w[i][1], 500 + C.tol) /\ Near(mm[i][2], w[i][2], 500 + C.tol)

Clause(name, holds) == IF holds THEN {} ELSE {name}
Verdict ==
  LET C == Cases[c]
  IN IF ~C.ok THEN {C.kind \o ".raised"}
     ELSE IF C.kind = "w" THEN
        LET d == FileDesign(C)
            w == WrittenDesign(C)
        IN IF C.half THEN Clause("w.half", HalfOk(C, d))
           ELSE Clause("w.stitches", Same(Sewn(d), Sewn(w), C.tol))
                \cup Clause("w.full", Same(Shape(d), Shape(w), C.tol))
     ELSE IF C.kind = "r" THEN
        LET d == Posted(C, Decode(C.fmt, C.bytes, C.base, C.start, C.aux), Thr(C))
        IN Clause("r.decode", IF C.cut THEN SameCut(d.q, C.res, C.tol) ELSE Same(d.q, C.res, C.tol)) \cup Clause("r.threads", IF C.anythr THEN \A t \in {C.rthr[k] : k \in DOMAIN C.rthr} : t >= 0 ELSE d.thr = C.rthr)
     ELSE LET w == Posted(C, WrittenDesign(C), C.wthr).q
              r == IF C.fmt = "vp3" THEN Vp3Seen(C.res) ELSE C.res
          IN Clause("e.stitches", Same(Sewn(w), Sewn(r), C.tol)) \cup Clause("e.full", Same(Shape(w), Shape(r), C.tol))

Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c]
                IN PrintT(CASE C.kind = "w" -> <<"file", FileDesign(C), "design", DesignOf(C), "expected", WrittenDesign(C)>>
                            [] C.kind = "e" -> <<"read", C.res, "design", DesignOf(C), "written", WrittenDesign(C), "expected", Posted(C, WrittenDesign(C), C.wthr)>>
                            [] OTHER -> <<"read", C.res, "expected", Posted(C, Decode(C.fmt, C.bytes, C.base, C.start, C.aux), Thr(C))>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
