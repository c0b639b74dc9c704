#!/usr/bin/env python3
"""Writes spec/Commands.tla: the documented names of the commands and their numbers (README, "Commands")."""
import os
T = """STITCH 0 JUMP 1 TRIM 2 STOP 3 END 4 COLOR_CHANGE 5 SEQUIN_MODE 6 SEQUIN_EJECT 7 NEEDLE_SET 9 SLOW 11 FAST 12
SET_CHANGE_SEQUENCE 16 SEW_TO 176 NEEDLE_AT 177 STITCH_BREAK 224 SEQUENCE_BREAK 225 COLOR_BREAK 226 TIE_ON 228 TIE_OFF 229
FRAME_EJECT 233 MATRIX_TRANSLATE 192 MATRIX_SCALE_ORIGIN 193 MATRIX_ROTATE_ORIGIN 194 MATRIX_RESET 195 MATRIX_SCALE 196
MATRIX_ROTATE 197 CONTINGENCY_TIE_ON_THREE_SMALL 209 CONTINGENCY_TIE_OFF_THREE_SMALL 210 CONTINGENCY_TIE_ON_NONE 211
CONTINGENCY_TIE_OFF_NONE 212 OPTION_MAX_STITCH_LENGTH 213 OPTION_MAX_JUMP_LENGTH 214 OPTION_EXPLICIT_TRIM 215
OPTION_IMPLICIT_TRIM 216 CONTINGENCY_LONG_STITCH_NONE 240 CONTINGENCY_LONG_STITCH_JUMP_NEEDLE 241
CONTINGENCY_LONG_STITCH_SEW_TO 242 CONTINGENCY_SEQUIN_UTILIZE 245 CONTINGENCY_SEQUIN_JUMP 246 CONTINGENCY_SEQUIN_STITCH 247
CONTINGENCY_SEQUIN_REMOVE 248""".split()
out = ["------------------------------ MODULE Commands ------------------------------",
       "(* Names of the commands (lists of code points) and their numbers.            *)",
       "CommandNames == <<"]
out.append(",\n".join("  << <<%s>>, %s>>" % (",".join(str(ord(c)) for c in n), v) for n, v in zip(T[::2], T[1::2])))
out += [">>", "============================================================================="]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Commands.tla"), "w").write("\n".join(out) + "\n")
