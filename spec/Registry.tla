------------------------------ MODULE Registry ------------------------------
(* The registered file types: extension, its code points, read, written.  Made  *)
(* by tools/mkregistry.py.                                                      *)
Registry == <<
  [fmt |-> "pec", ext |-> <<112, 101, 99>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "pes", ext |-> <<112, 101, 115>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "exp", ext |-> <<101, 120, 112>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "dst", ext |-> <<100, 115, 116>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "jef", ext |-> <<106, 101, 102>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "vp3", ext |-> <<118, 112, 51>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "csv", ext |-> <<99, 115, 118>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "xxx", ext |-> <<120, 120, 120>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "u01", ext |-> <<117, 48, 49>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "tbf", ext |-> <<116, 98, 102>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "pmv", ext |-> <<112, 109, 118>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "gcode", ext |-> <<103, 99, 111, 100, 101>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "edr", ext |-> <<101, 100, 114>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "col", ext |-> <<99, 111, 108>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "inf", ext |-> <<105, 110, 102>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "json", ext |-> <<106, 115, 111, 110>>, reads |-> TRUE, writes |-> TRUE],
  [fmt |-> "sew", ext |-> <<115, 101, 119>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "shv", ext |-> <<115, 104, 118>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "10o", ext |-> <<49, 48, 111>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "100", ext |-> <<49, 48, 48>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "bro", ext |-> <<98, 114, 111>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "dat", ext |-> <<100, 97, 116>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "dsb", ext |-> <<100, 115, 98>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "dsz", ext |-> <<100, 115, 122>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "emd", ext |-> <<101, 109, 100>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "exy", ext |-> <<101, 120, 121>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "fxy", ext |-> <<102, 120, 121>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "gt", ext |-> <<103, 116>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "inb", ext |-> <<105, 110, 98>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "ksm", ext |-> <<107, 115, 109>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "tap", ext |-> <<116, 97, 112>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "spx", ext |-> <<115, 112, 120>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "stx", ext |-> <<115, 116, 120>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "phb", ext |-> <<112, 104, 98>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "phc", ext |-> <<112, 104, 99>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "new", ext |-> <<110, 101, 119>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "max", ext |-> <<109, 97, 120>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "mit", ext |-> <<109, 105, 116>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "pcd", ext |-> <<112, 99, 100>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "pcq", ext |-> <<112, 99, 113>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "pcm", ext |-> <<112, 99, 109>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "pcs", ext |-> <<112, 99, 115>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "jpx", ext |-> <<106, 112, 120>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "stc", ext |-> <<115, 116, 99>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "zhs", ext |-> <<122, 104, 115>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "zxy", ext |-> <<122, 120, 121>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "hus", ext |-> <<104, 117, 115>>, reads |-> TRUE, writes |-> FALSE],
  [fmt |-> "svg", ext |-> <<115, 118, 103>>, reads |-> FALSE, writes |-> TRUE],
  [fmt |-> "png", ext |-> <<112, 110, 103>>, reads |-> FALSE, writes |-> TRUE],
  [fmt |-> "txt", ext |-> <<116, 120, 116>>, reads |-> FALSE, writes |-> TRUE]
>>
=============================================================================
