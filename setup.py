#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and that the runtime compiles; checks build what they need themselves"""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
for c in (["java", "-version"], ["g++", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.makedirs(V + "/build", exist_ok=True)
os.makedirs(V + "/evidence", exist_ok=True)
sys.exit(subprocess.run(["g++", "-O2", "-w", "-c", V + "/rt/vs.cpp", "-I" + V + "/rt", "-o", V + "/build/setup-test.o"]).returncode)
