#!/usr/bin/env python3
"""Checks that the tools the monitors need are there (the checks themselves rebuild from /repo on every run)."""
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write("#include <vector>\nint main(){std::vector<int> v(3); return v[0];}\n")
    ok = False
    for cxx in ("clang++", "g++"):
        if shutil.which(cxx):
            p = subprocess.run([cxx, "-fsanitize=address,undefined", src, "-o", os.path.join(d, "t")])
            if p.returncode == 0 and subprocess.run([os.path.join(d, "t")], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode == 0:
                ok = True
                print("sanitizers of", cxx, "work")
    for what in ("clang++ -fsanitize=thread", "valgrind"):
        if not shutil.which(what.split()[0]):
            print("missing:", what)
            ok = False
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
