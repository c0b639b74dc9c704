------------------------------ MODULE TextTrace ------------------------------
(* Trace specification of text: CSV and JSON designs (P12), metadata (P13).   *)
EXTENDS Meta, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>
Init == c \in DOMAIN Cases /\ pc = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}
Set(l) == {l[i] : i \in DOMAIN l}

\* the written CSV text says what the design is
CsvWritten(C) ==
  LET rows == Rows(C.text)
      d == DesignOf(rows)
      st == Pick(rows, "stitch")
      data == Pick(rows, "data")
      value(key) == LET k == {i \in DOMAIN data : data[i][2] = key} IN IF Cardinality(k) = 1 THEN data[CHOOSE i \in k : TRUE][3] ELSE << >>
      x == Extent(C.q, 1)
      y == Extent(C.q, 2)
      cnt(i) == value(C.counts[i][1]) = Digits(CountOf(C.q, C.counts[i][2]))
  IN Clause("csv.commands", d.q = C.q) \cup Clause("csv.threads", d.thr = C.thr) \cup Clause("csv.metadata", d.ext = Set(C.ext))
     \cup Clause("csv.index", \A i \in DOMAIN st : st[i][2] = Digits(i - 1))
     \cup Clause("csv.total", value(C.keys[1]) = Digits(Len(C.q)))
     \cup Clause("csv.changes", value(C.keys[2]) = Digits(CountOf(C.q, COLORCHANGE)))
     \cup Clause("csv.needles", value(C.keys[3]) = Digits(CountOf(C.q, NEEDLESET)))
     \cup Clause("csv.extents", /\ Milli(value(C.keys[4])) = x[1] /\ Milli(value(C.keys[5])) = y[1] /\ Milli(value(C.keys[6])) = x[2]
                                /\ Milli(value(C.keys[7])) = y[2] /\ Milli(value(C.keys[8])) = x[2] - x[1] /\ Milli(value(C.keys[9])) = y[2] - y[1])
     \cup Clause("csv.counts", \A i \in DOMAIN C.counts : cnt(i))
     \cup Clause("csv.deltas", C.version # "default" => \A i \in DOMAIN st :
                /\ Len(st[i]) >= 7
                /\ Milli(st[i][6]) = C.q[i][1] - (IF i = 1 THEN 0 ELSE C.q[i - 1][1])
                /\ Milli(st[i][7]) = C.q[i][2] - (IF i = 1 THEN 0 ELSE C.q[i - 1][2]))
Back(C, pre) ==
  Clause(pre \o ".read.commands", C.res = C.q) \cup Clause(pre \o ".read.threads", C.rthr = C.thr)
  \cup Clause(pre \o ".read.metadata", Set(C.rext) = Set(C.ext)) \cup Clause(pre \o ".read.exact", C.exact)
\* the reader of a given CSV text
CsvRead(C) == LET d == DesignOf(Rows(C.text))
              IN Clause("csv.reader.commands", C.res = d.q) \cup Clause("csv.reader.threads", C.rthr = d.thr)
                 \cup Clause("csv.reader.metadata", Set(C.rext) = d.ext)
\* a JSON document, parsed: stitches [x, y, text], threads, extras
JsonDoc(C) == Clause("json.commands", Len(C.doc) = Len(C.q) /\ \A i \in DOMAIN C.q : <<C.doc[i][1], C.doc[i][2]>> \o CommandOf(C.doc[i][3]) = C.q[i])
              \cup Clause("json.threads", C.dthr = C.thr) \cup Clause("json.metadata", Set(C.dext) = Set(C.ext))
JsonRead(C) == Clause("json.reader.commands", C.res = [i \in DOMAIN C.doc |-> <<C.doc[i][1], C.doc[i][2]>> \o CommandOf(C.doc[i][3])])
               \cup Clause("json.reader.threads", C.rthr = C.dthr) \cup Clause("json.reader.metadata", Set(C.rext) = Set(C.dext))
\* metadata through a chain of formats
MetaV(C) ==
  LET w == Through(C.fmts, Set(C.ext))
      fld == NameField(C.fmts[1], C.base)
  IN Clause("meta.text", Only(Set(C.rext)) = w) \cup Clause("meta.commands", C.sameq) \cup Clause("meta.threads", C.samet)
     \cup Clause("meta.place", C.placed => C.samelen /\ \A i \in DOMAIN C.diff : C.diff[i] \in fld[1]..fld[2])
Verdict == LET C == Cases[c]
           IN IF ~C.ok THEN {C.kind \o ".raised"}
              ELSE CASE C.kind = "csv" -> CsvWritten(C) \cup Back(C, "csv") [] C.kind = "csv.reader" -> CsvRead(C)
                     [] C.kind = "json" -> JsonDoc(C) \cup Back(C, "json") [] C.kind = "json.reader" -> JsonRead(C)
                     [] C.kind = "meta" -> MetaV(C)
Explain == IF "EXPLAIN" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET C == Cases[c]
                IN PrintT(CASE C.kind \in {"csv", "csv.reader"} -> <<"want", DesignOf(Rows(C.text)), "got", C.res, C.rthr, C.rext>>
                            [] C.kind = "meta" -> <<"want", Through(C.fmts, Set(C.ext)), "got", C.rext>>
                            [] OTHER -> <<C>>)
Judge == pc = 0 /\ Explain /\ PrintT(<<"VERDICT", c, Verdict>>) /\ pc' = 1 /\ UNCHANGED c
Done == pc = 1 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
