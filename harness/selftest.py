"""Setup: see that the tools are there and that the specification parses."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
bad = 0
for d, mods in (("", ["Trace"]),):
    for m in mods:
        p = subprocess.run(["java", "-cp", f"{tlc.JAR}:{tlc.CM}", "tla2sany.SANY", m + ".tla"],
                           cwd=os.path.join(tlc.SPEC, d), capture_output=True, text=True)
        ok = p.returncode == 0 and "*** Errors" not in p.stdout
        print(m, "ok" if ok else p.stdout[-2000:])
        bad |= not ok
sys.exit(bad)
