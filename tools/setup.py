#!/usr/bin/env python3
"""Checks that the tools the checks rely on are present (nothing has to be built beforehand)."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = all(shutil.which(t) for t in ("java", "gcc", "python3")) and os.path.exists("/opt/veriftools/tla/tla2tools.jar")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
