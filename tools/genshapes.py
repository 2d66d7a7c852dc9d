#!/usr/bin/env python3
"""Regenerate the programs that TLC derives from the design models: go/h/shapes.json (MapGen)."""
import os, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import mbv
c = mbv.Ctx("gen", "quick", 1)
open(V + "/go/h/shapes.json", "w").write(c.shapes())
c.close()
