"""Nothing is installed: checks that the verifier and the compilers answer."""
import subprocess, sys
for c in (["verus", "--version"], ["clang++-18", "--version"], ["g++", "--version"]):
    if subprocess.run(c, capture_output=True).returncode:
        sys.exit("missing " + c[0])
print("ok")
