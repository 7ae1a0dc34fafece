#!/usr/bin/env python3-vt
"""set-up: verifies that the exporter builds against the installed clang"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import frontend
frontend.build_exporter() if hasattr(frontend, "build_exporter") else frontend.load(2, 2, False)
print("exporter ready")
