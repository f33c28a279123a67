"""Checks that the tools the checks rely on are present and work."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for t in ("gcc", "autoconf", "make", "rsync"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
import numpy  # noqa
d = V + "/.work"
os.makedirs(d, exist_ok=True)
subprocess.check_call(["gcc", "-O1", "-w", "-o", d + "/sched-test", V + "/csrc/mmpi/sched.c"])
os.remove(d + "/sched-test")
print("ok")
