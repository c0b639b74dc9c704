#!/usr/bin/env python3
"""Writes spec/Names.tla: the SVG/CSS colour names and their values, from the color-name package
(an independent table)."""
import os, re, sys
src = sys.argv[1] if len(sys.argv) > 1 else "/opt/veriftools/node/node_modules/color-name/index.js"
t = re.findall(r"[\"']?(\w+)[\"']?:\s*\[(\d+),\s*(\d+),\s*(\d+)\]", open(src).read())
t = sorted((n, (int(r) << 16) | (int(g) << 8) | int(b)) for n, r, g, b in t if n != "rebeccapurple")
out = ["-------------------------------- MODULE Names --------------------------------",
       "(* The colour names of SVG 1.0 / CSS 3 and their values 0xRRGGBB; a name is    *)",
       "(* the list of its characters' code points (lower case).                       *)",
       "EXTENDS Integers, Sequences", "Names == <<"]
out.append(",\n".join("  << <<%s>>, %d>> \\* %s" % (",".join(str(ord(c)) for c in n), v, n) if False else
                     "  << <<%s>>, %d>>" % (",".join(str(ord(c)) for c in n), v) for n, v in t))
out.append(">>")
out.append("=============================================================================")
open(os.path.join(os.path.dirname(__file__), "..", "spec", "Names.tla"), "w").write("\n".join(out) + "\n")
print(len(t))
