#!/usr/bin/env python3
"""gen.py SPEC OUT : translate and print problems (development helper)"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from cxxast import TU
from c2v import *
def load(path):
    spec = Spec(path)
    tus = []
    seen = {}
    for f, flt in spec.sources:
        tus.append(TU(f, flt))
    return Unit(os.path.basename(path)[:-6], tus, spec)
if __name__ == "__main__":
    u = load(sys.argv[1])
    common = open(os.path.join(os.path.dirname(__file__), "../specs/common.rs")).read()
    for inc in u.spec.includes:
        common += open(os.path.join(os.path.dirname(__file__), "../specs", inc)).read()
    t, lm = u.generate(common)
    open(sys.argv[2], "w").write(t)
    for k, e in u.failed.items():
        print("FAILED", k, e)
    print("assumptions", u.assumptions, u.dropped, u.inlined)
