-------------------------------- MODULE ApiMC --------------------------------
(* Behaviours of the composition API, generated: TLC's simulator picks calls; *)
(* at the end of a behaviour the calls are printed for replay on the code.    *)
EXTENDS Pattern, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES P, calls, done
vars == <<P, calls, done>>
Coords == {0, 1000, -3000, 2500, 7000, -12250}
Bytes == {<<STITCH, 0, 0, 0>>, <<JUMP, 0, 0, 0>>, <<TRIM, 0, 0, 0>>, <<COLORCHANGE, 2, 0, 0>>, <<NEEDLESET, 0, 4, 0>>, <<COLORBREAK, 0, 0, 0>>,
          <<SETCHANGESEQ, 1, 2, 3>>, <<SLOW, 0, 0, 0>>, <<SEQEJECT, 0, 0, 0>>}
O(m, at, k, c, x, y, n, l, s, t) == [m |-> m, at |-> at, k |-> k, c |-> c, x |-> x, y |-> y, n |-> n, l |-> l, s |-> s, t |-> t]
Do(o) == P' = Apply(P, o) /\ calls' = Append(calls, o) /\ done' = FALSE
Init == P = Empty /\ calls = << >> /\ done = FALSE
Live == ~done /\ Len(calls) < Depth
L == Len(P.q)
B0 == Bare(STITCH)
Relative == Live /\ \E m \in {"move", "stitch", "stop", "trim", "color_change", "needle_change", "sequin_eject", "sequin_mode", "end"}, x, y \in Coords :
              Do(O(m, FALSE, 0, B0, x, y, 3, << >>, "", ""))
RelativeAt == Live /\ L > 0 /\ \E m \in {"move", "stitch", "trim", "color_change", "needle_change"}, k \in (-L)..L, x \in Coords :
              Do(O(m, TRUE, k, B0, x, 1000, 5, << >>, "", ""))
Absolute == Live /\ \E m \in {"move_abs", "stitch_abs"}, x, y \in Coords : Do(O(m, FALSE, 0, B0, x, y, 0, << >>, "", ""))
AbsoluteAt == Live /\ \E m \in {"move_abs", "stitch_abs"}, k \in (-L - 1)..(L + 1), y \in Coords : Do(O(m, TRUE, k, B0, 4000, y, 0, << >>, "", ""))
Add == Live /\ \E m \in {"add_stitch_absolute", "add_stitch_relative", "add_command", "prepend_command"}, b \in Bytes, x, y \in {0, 5000, -500} :
              Do(O(m, FALSE, 0, b, x, y, 0, << >>, "", ""))
Insert == Live /\ L > 0 /\ \E m \in {"insert", "insert_stitch_relative"}, k \in (-L)..L, b \in Bytes, x \in Coords : Do(O(m, FALSE, k, b, x, -1000, 0, << >>, "", ""))
SetItem == Live /\ L > 0 /\ \E k \in (-L)..(L - 1), b \in Bytes : Do(O("set_item", FALSE, k, b, 9000, 9000, 0, << >>, "", ""))
Whole == Live /\ \E m \in {"translate", "center", "fix_color_count", "append_translation"}, x \in Coords : Do(O(m, FALSE, 0, B0, x, 2000, 0, << >>, "", ""))
Threads == Live /\ \E m \in {"iadd_thread", "add_thread"}, n \in {17, 4660, 16711680} : Do(O(m, FALSE, 0, B0, 0, 0, n, << >>, "", ""))
Block == Live /\ \E n \in {-1, 255}, x \in Coords : Do(O("add_block", FALSE, 0, B0, 0, 0, n, << <<x, 0, B0>>, <<0, x, B0>> >>, "", ""))
Meta == Live /\ \E s \in {"name", "author"}, t \in {"a", "b"} : Do(O("metadata", FALSE, 0, B0, 0, 0, 0, << >>, s, t))
\* whole-design operations in the middle of a history
S(x, y) == <<x, y, STITCH, 0, 0, 0>>
K(x, y, c) == <<x, y, c, 0, 0, 0>>
Parts == {[q |-> <<S(0, 0), S(3000, -4000)>>, thr |-> <<17>>, ext |-> << >>, cur |-> <<0, 0>>],
          [q |-> <<S(1000, 0), K(1000, 0, COLORCHANGE), S(2000, 500), K(2000, 500, TRIM), K(2000, 500, END)>>, thr |-> <<4660, 255>>, ext |-> << <<"name", "c">> >>, cur |-> <<0, 0>>],
          [q |-> <<K(7000, 0, JUMP), S(7000, 0), K(7000, 0, STOP), S(8000, 0)>>, thr |-> << >>, ext |-> << <<"author", "a">> >>, cur |-> <<0, 0>>],
          [q |-> << >>, thr |-> <<255>>, ext |-> << >>, cur |-> <<0, 0>>], [q |-> << >>, thr |-> << >>, ext |-> << >>, cur |-> <<0, 0>>]}
Moves == {NoMove, NoMove, [t |-> <<5000, -3000>>, s |-> << >>, r |-> << >>]}
Joins == Live /\ \E b \in Parts, mv \in Moves : Do(O("merge", FALSE, 0, B0, 0, 0, 0, << >>, "", "") @@ [b |-> b, mv |-> mv])
Transform == Live /\ \E a \in {<<-1, 0, 0, 1>>, <<0, 1, -1, 0>>, <<1, 0, 1, 1>>}, x \in Coords :
               Do(O("transform", FALSE, 0, B0, 0, 0, 0, << >>, "", "") @@ [mx |-> a \o <<x, 1000>>])
StitchBlock == Live /\ \E at \in BOOLEAN, x \in Coords : (~at \/ P.thr # << >>) /\
               Do(O("stitchblock", at, 0, B0, 0, 0, 17, << <<x, 0, B0>>, <<0, x, Bare(JUMP)>>, <<500, 500, Bare(TRIM)>> >>, "", ""))
Reread == Live /\ \E m \in {"frame", "stop_as_dup", "dup_as_stop", "copy", "json"} : (m # "dup_as_stop" \/ -1 \notin {P.thr[i] : i \in DOMAIN P.thr}) /\
               Do(O(m, FALSE, 0, B0, 0, 0, 0, << >>, "", ""))
Trims == Live /\ \E n \in {0, 1, 2}, d \in {-1, 5000}, clip \in BOOLEAN :
               Do(O("trims", FALSE, 0, B0, 0, 0, 0, << >>, "", "") @@ [arg |-> [cnt |-> n, dist |-> d, clip |-> clip]])
Show == ~done /\ Len(calls) = Depth /\ PrintT("CALLS " \o ToJson(calls)) /\ done' = TRUE /\ UNCHANGED <<P, calls>>
Next == Relative \/ RelativeAt \/ Absolute \/ AbsoluteAt \/ Add \/ Insert \/ SetItem \/ Whole \/ Threads \/ Block \/ Meta \/ Joins \/ Transform \/ StitchBlock \/ Reread \/ Trims \/ Show
Spec == Init /\ [][Next]_vars
=============================================================================
