#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there. Nothing is built ahead: every check compiles its harnesses
against the headers of /repo's working tree when it runs."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ("g++", "clang++") if not shutil.which(t)]
for t in bad:
    print("missing tool:", t)
d = tempfile.mkdtemp(prefix="vf-setup-")
src = os.path.join(d, "t.cpp")
with open(src, "w") as fh:
    fh.write("int main() { return 0; }\n")
for cxx in ("g++", "clang++"):
    for san in ("address,undefined", "thread"):
        exe = os.path.join(d, "t")
        r = subprocess.run([cxx, "-fsanitize=" + san, src, "-o", exe], capture_output=True, text=True)
        if r.returncode or subprocess.run([exe]).returncode:
            bad.append(cxx + " " + san)
            print("cannot use", cxx, "-fsanitize=" + san, r.stderr)
shutil.rmtree(d)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("setup: tools present" if not bad else "setup: problems: %s" % bad)
sys.exit(1 if bad else 0)
