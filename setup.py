#!/usr/bin/env python3
"""Build the contract crate once, natively and for the verifier, so that checks start warm. Every check rebuilds from
/repo's current tree anyway: a failure here changes nothing."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.argv = ["setup", "C18"]
sys.path.insert(0, HERE)
import check
os.makedirs(check.WORK, exist_ok=True)
os.makedirs(check.EVID, exist_ok=True)
print("native:", check.native_build(False)[0])
print("native, sanitized:", check.native_build(True)[0])
res, compiled, cmd, out = check.kani(["c18_voltage"])
print("verifier:", compiled, res["c18_voltage"]["status"])
