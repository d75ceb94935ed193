#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are there (nothing is built ahead: every check is self-contained)."""
import shutil, sys, subprocess, os
bad = [t for t in ("why3", "z3", "z3-new", "cvc5", "clang++", "g++") if not shutil.which(t)]
if bad:
    print("missing:", bad)
    sys.exit(1)
# the axiom and_align of contracts/fileio.mlw, on bit vectors
q = "(declare-const x (_ BitVec 64))\n" + "".join(
    "(push)(assert (not (= (bvand x (bvnot (bvsub #x%016x #x0000000000000001))) (bvsub x (bvurem x #x%016x)))))(check-sat)(pop)\n" % (1 << k, 1 << k)
    for k in range(64))
r = subprocess.run(["z3", "-in"], input=q, capture_output=True, text=True).stdout.split()
if r != ["unsat"] * 64:
    print("and_align not confirmed", r)
    sys.exit(1)
os.makedirs(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/evidence", exist_ok=True)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, props
print("ok:", subprocess.run(["why3", "--version"], capture_output=True, text=True).stdout.strip(), len(props.PROPS), "checks")
