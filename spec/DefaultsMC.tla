------------------------------ MODULE DefaultsMC -----------------------------
(* Settings are decided one at a time, in any order: what the caller gave, or   *)
(* else what the format says.  The order plays no part and nothing else of the  *)
(* configuration changes.                                                       *)
EXTENDS Formats
VARIABLES fmt, given, cfg, todo
vars == <<fmt, given, cfg, todo>>
Kinds == {"dst", "exp", "jef", "pec", "pes", "xxx", "u01", "tbf", "vp3", "gcode", "svg", "png", "pmv", "csv", "txt", "json"}
Alternative == [ms |-> 31000, mj |-> 40000, full |-> TRUE, round |-> TRUE, tcc |-> STOP, seq |-> SEQREMOVE, speeds |-> FALSE, explicit |-> TRUE,
                translate |-> <<1000, 2000>>, scale |-> <<20000, 20000>>, rot |-> <<0, 10000>>]
Keys == DOMAIN Alternative
Init == /\ fmt \in Kinds /\ given \in SUBSET {"ms", "full", "seq", "tcc", "scale", "rot"}
        /\ cfg = BaseCfg /\ todo = {"ms", "mj", "full", "round", "tcc", "seq", "scale"}
\* (the other settings have no default of any format)
Decide == \E k \in todo : /\ cfg' = [cfg EXCEPT ![k] = IF k \in given THEN Alternative[k] ELSE Defaults(fmt)[k]]
                          /\ todo' = todo \ {k} /\ UNCHANGED <<fmt, given>>
Next == Decide
Spec == Init /\ [][Next]_vars
Over == [k \in given \cap {"ms", "mj", "full", "round", "tcc", "seq", "scale"} |-> Alternative[k]]
Merged == todo = {} /\ fmt # "tbf" => cfg = Over @@ Defaults(fmt)
Tbf == todo = {} /\ fmt = "tbf" => [cfg EXCEPT !.explicit = TRUE] = Over @@ Defaults(fmt)
Kept == \A k \in DOMAIN cfg : cfg[k] = BaseCfg[k] \/ k \notin todo
=============================================================================
