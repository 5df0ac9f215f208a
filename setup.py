#!/usr/bin/env python3
"""Builds the harness once (also fills the build cache used by the checks). Exits 0 when every check package builds."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
G = "/opt/veriftools/go1.25.14"
e = dict(os.environ, GOROOT=G, PATH=G + "/bin:" + os.environ.get("PATH", ""), GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
         GOPROXY="off", GOWORK="off", GOCACHE=os.path.join(V, ".work", "gocache"), CGO_ENABLED="1")
os.makedirs(os.path.join(V, ".work"), exist_ok=True)
r = subprocess.run([G + "/bin/go", "test", "-race", "-vet=off", "-count=1", "-run", "XXX", "./..."], cwd=os.path.join(V, "harness"), env=e)
sys.exit(r.returncode)
