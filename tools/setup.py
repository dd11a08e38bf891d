#!/usr/bin/env python3
"""Warm the Go build cache by building every check once (not required)."""
import os, subprocess, sys, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["run.py"]
src = open(os.path.join(R, "run.py")).read().replace("\nsys.exit(main())", "\n")
ns = {"__file__": os.path.join(R, "run.py")}
exec(compile(src, "run.py", "exec"), ns)
env = ns["goenv"]()
bad = 0
tmp = tempfile.mkdtemp(prefix="vmc-setup-")
try:
    ids = sorted(d for d in os.listdir(os.path.join(R, "harness")) if os.path.exists(os.path.join(R, "harness", d, "main.go")))
    ov = ns["overlay"](tmp)
    out = os.path.join(tmp, "bin")
    os.makedirs(out)
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", out + "/"] + ["./internal/verifmc/" + i for i in ids], cwd="/repo", env=env)
    bad = r.returncode
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("setup:", "ok" if bad == 0 else "failed")
sys.exit(0 if bad == 0 else 1)
