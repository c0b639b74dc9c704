#!/usr/bin/env python3
"""One-off: writes spec/Palettes.tla from the palettes as they were when the specification was made."""
import sys
sys.path.insert(0, "/repo")
import importlib
out = ["------------------------------ MODULE Palettes ------------------------------",
       "(* The fixed thread palettes as the formats define them: colour numbers      *)",
       "(* 0xRRGGBB, entry k of the format at position k + 1; -1 marks no thread.    *)",
       "EXTENDS Integers, Sequences"]
for n in ("Pec", "Jef", "Sew", "Hus", "Shv"):
    t = importlib.import_module("pyembroidery.EmbThread" + n).get_thread_set()
    out.append("%sPalette == <<%s>>" % (n, ", ".join("-1" if x is None else str(x.color & 0xFFFFFF) for x in t)))
pcm = [0x000000, 0x000080, 0x0000FF, 0x008080, 0x00FFFF, 0x800080, 0xFF00FF, 0x800000, 0xFF0000, 0x008000, 0x00FF00,
       0x808000, 0xFFFF00, 0x808080, 0xC0C0C0, 0xFFFFFF]
out.append("PcmPalette == <<%s>>" % ", ".join(map(str, pcm)))
out.append('Palette(n) == CASE n = "pec" -> PecPalette [] n = "jef" -> JefPalette [] n = "sew" -> SewPalette')
out.append('                [] n = "hus" -> HusPalette [] n = "shv" -> ShvPalette [] n = "pcm" -> PcmPalette')
out.append("=" * 77)
import textwrap
with open("/verif/spec/Palettes.tla", "w") as f:
    for l in out:
        f.write("\n  ".join(textwrap.wrap(l, 110, break_long_words=False)) + "\n")
