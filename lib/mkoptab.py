"""harness/optab.h from harness/optab.in.h: T("WORD") becomes the integer constant (the verifier would evaluate the macro at every use)."""
import os, re
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
t = open(os.path.join(H, "optab.in.h")).read()
t = re.sub(r'T\("([^"]*)"\)', lambda m: "0x%XULL" % sum(ord(c) << (8 * i) for i, c in enumerate(m.group(1))), t)
open(os.path.join(H, "optab.h"), "w").write("/* generated by lib/mkoptab.py from optab.in.h */\n" + t)
