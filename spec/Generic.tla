------------------------------ MODULE Generic ------------------------------
(* The template-driven text writer.  T: the templates given.  A written text is *)
(* a token <<template, values>>.  Documents hold colours, colours hold blocks.  *)
EXTENDS Post
Opens(f) == CASE f \in {STITCH, JUMP, STOP, SLOW, FAST, SEQMODE, SEQEJECT, END} -> {"document", "color", "block"}
              [] f \in {TRIM, NEEDLESET} -> {"document", "color"}
              [] f = COLORCHANGE -> {"document"}
              [] OTHER -> {}
Closes(f) == CASE f = TRIM -> {"block"} [] f = COLORCHANGE -> {"block", "color"} [] f = END -> {"block", "color", "document"} [] OTHER -> {}
Own(f) == CASE f = STITCH -> "stitch" [] f = JUMP -> "jump" [] f = TRIM -> "trim" [] f = STOP -> "stop" [] f = END -> "end"
            [] f = COLORCHANGE -> "color_change" [] f = NEEDLESET -> "needle_set" [] f = SLOW -> "slow" [] f = FAST -> "fast"
            [] f = SEQMODE -> "sequin_mode" [] f = SEQEJECT -> "sequin" [] OTHER -> "segment"
\* the template of a command, "" when there is none; needle 3 may have its own,
\* or the commands at 30
Chosen(f, T) == IF Own(f) \in T THEN Own(f) ELSE IF "segment" \in T THEN "segment" ELSE ""
Nothing == [out |-> << >>, open |-> {}, d |-> -1, c |-> -1, b |-> -1, i |-> -1, x |-> 0, y |-> 0, dx |-> 0, dy |-> 0,
            lx |-> 0, ly |-> 0, px |-> 0, py |-> 0, rx |-> 0, ry |-> 0, ix |-> 0, iy |-> 0, z |-> 0, zz |-> 0, at |-> <<0, 0, 0, 0>>]
\* what the placeholders of w stand for
Values(w) == <<w.i, w.x, w.y, w.dx, w.dy, w.ix, w.iy, w.rx, w.ry, w.lx, w.ly, w.z, w.at, w.d, w.c, w.b>>
\* all placeholders: the numbers, the negated ones, and the indices counted from one
Shown(v) == <<v[1]>> \o SubSeq(v, 2, 12) \o v[13] \o <<v[14], v[15], v[16]>>
            \o <<-v[2], -v[3], -v[6], -v[7], -v[8], -v[9], -v[10], -v[11]>> \o <<v[14] + 1, v[15] + 1, v[16] + 1>>
Put(w, name, T) == IF name \in T THEN [w EXCEPT !.out = Append(@, <<name, Values(w)>>)] ELSE w
\* the indices count within what is around
Opened(w, what) ==
  LET d == "document" \in what \ w.open
      c == "color" \in what \ w.open
      b == "block" \in what \ w.open
  IN [w EXCEPT !.d = IF d THEN @ + 1 ELSE @, !.c = (IF d THEN -1 ELSE @) + (IF c THEN 1 ELSE 0),
               !.b = (IF c THEN -1 ELSE @) + (IF b THEN 1 ELSE 0), !.open = @ \cup what]
Starts(w, new, T) ==
  LET a1 == IF "document" \in new THEN Put(w, "document_start", T) ELSE w
      a2 == IF "color" \in new THEN Put(IF w.c > 0 THEN Put(a1, "color_join", T) ELSE a1, "color_start", T) ELSE a1
  IN IF "block" \in new THEN Put(IF w.b > 0 THEN Put(a2, "block_join", T) ELSE a2, "block_start", T) ELSE a2
Ends(w, old, T) ==
  LET a1 == IF "block" \in old THEN Put(w, "block_end", T) ELSE w
      a2 == IF "color" \in old THEN Put(a1, "color_end", T) ELSE a1
      a3 == IF "document" \in old THEN Put(a2, "document_end", T) ELSE a2
  IN [a3 EXCEPT !.open = @ \ old]
\* command s, zinc: what a stitch adds to z
Feed(w, s, T, zinc) ==
  LET own == Chosen(s[3], T)
      name == IF own # "" /\ s[5] = 4 /\ (own \o "_3") \in T THEN own \o "_3"
              ELSE IF own # "" /\ s[1] = 30000 /\ (own \o "_x") \in T THEN own \o "_x" ELSE own
      n == [w EXCEPT !.i = @ + 1, !.at = SubSeq(s, 3, 6)]
      ix == RoundMilli(s[1] - w.rx)
      iy == RoundMilli(s[2] - w.ry)
      m == [n EXCEPT !.x = s[1], !.y = s[2], !.dx = s[1] - w.px, !.dy = s[2] - w.py, !.lx = w.px, !.ly = w.py, !.ix = ix, !.iy = iy,
                     !.rx = @ + ix, !.ry = @ + iy, !.z = w.zz]
      o == Opened(m, Opens(s[3]))
      p == Starts(o, Opens(s[3]) \ w.open, T)
      q == Put(Put(Put(Put(p, "segment_start", T), name, T), "segment_join", T), "segment_end", T)
      e == Ends(q, Closes(s[3]) \cap q.open, T)
  IN IF name = "" THEN n
     ELSE [e EXCEPT !.px = s[1], !.py = s[2], !.zz = IF s[3] = STITCH THEN @ + zinc ELSE @]
Written(q, T, zinc) == FoldLeft(LAMBDA w, s : Feed(w, s, T, zinc), Nothing, q)
Closed(w, T) == Ends(w, w.open, T)
Tokens(q, T, zinc) == Closed(Written(q, T, zinc), T).out
=============================================================================
