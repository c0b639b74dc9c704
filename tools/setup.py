#!/usr/bin/env python3
"""Sanity check of the toolchain; nothing is built (the specifications are interpreted by TLC)."""
import glob, os, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
assert shutil.which("java"), "java missing"
for jar in ("tla2tools.jar", "CommunityModules-deps.jar"):
    assert os.path.exists("/opt/veriftools/tla/" + jar), jar
print("specifications:", len(glob.glob(os.path.join(root, "spec", "*.tla"))))
