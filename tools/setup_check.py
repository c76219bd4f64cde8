"""setup_cmd: confirm the tools the checks use are present."""
import os, subprocess, sys
ok = True
for p in ("/opt/veriftools/pyvenv/bin/python", "/opt/venv/bin/python"):
    if not os.path.exists(p): print("missing", p); ok = False
ok &= subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages'); import z3, Cython"]).returncode == 0
sys.exit(0 if ok else 1)
