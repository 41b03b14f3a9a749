"""setup_cmd: compiles the numeric override of the specifications and checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.java_classes())
r = vlib.sh(["clang++", "--version"])
print(r.stdout.splitlines()[0])
