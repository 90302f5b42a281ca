#!/usr/bin/env python3
"""nothing to install: verifies that the tools the checks need are present"""
import os, shutil, sys
ok = all(shutil.which(x) for x in ("gcc", "g++", "java", "python3")) and os.path.exists("/opt/veriftools/tla/tla2tools.jar")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
