#!/usr/bin/env python3
"""Confirms the toolchain and sanitizer run times the checks use are there; the checks build the rest themselves."""
import os, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import CONFIGS
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <atomic>\nstd::atomic<int> a; int main() { return a.load(); }\n")
    for name in ("san", "opt", "tsan"):
        exe = os.path.join(d, name)
        subprocess.run([os.environ.get("CE_CXX", "clang++-18"), "-std=c++17", src, "-o", exe] + CONFIGS[name]["flags"], check=True)
        subprocess.run([exe], check=True)
print("ok")
