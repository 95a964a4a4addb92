#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing else has to be prepared."""
import shutil, subprocess, sys
if not shutil.which("g++"):
    sys.exit("g++ not found")
subprocess.run(["g++", "--version"], check=True)
