#!/usr/bin/env python3
"""Builds the engine once (every check builds it again from source; this warms the build cache)."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
with tempfile.TemporaryDirectory() as d:
    r = subprocess.run(["go", "build", "-o", os.path.join(d, "engine"), "."], cwd=os.path.join(V, "engine"), env=env)
sys.exit(r.returncode)
