#!/usr/bin/env python3
"""Writes spec/Registry.tla: the documented file types (README), each with what it supports."""
RW = "pec pes exp dst jef vp3 csv xxx u01 tbf pmv gcode edr col inf json".split()
R = "sew shv 10o 100 bro dat dsb dsz emd exy fxy gt inb ksm tap spx stx phb phc new max mit pcd pcq pcm pcs jpx stc zhs zxy hus".split()
W = "svg png txt".split()
rows = [(e, True, True) for e in RW] + [(e, True, False) for e in R] + [(e, False, True) for e in W]
out = ["------------------------------ MODULE Registry ------------------------------",
       "(* The registered file types: extension, its code points, read, written.  Made  *)",
       "(* by tools/mkregistry.py.                                                      *)", "Registry == <<"]
out.append(",\n".join('  [fmt |-> "%s", ext |-> <<%s>>, reads |-> %s, writes |-> %s]' % (e, ", ".join(str(ord(ch)) for ch in e), str(r).upper(), str(w).upper())
                     for e, r, w in rows))
out.append(">>")
out.append("=============================================================================")
open("/verif/spec/Registry.tla", "w").write("\n".join(out) + "\n")
