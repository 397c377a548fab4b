"""Run TLC."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class Result:
    pass


def run(module, cfg, env=None, workers=8, timeout=800, heap="6g", args=(), cwd=SPEC):
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + tmp,
               "-cp", f"{JAR}:{CM}", "tlc2.TLC", "-workers", str(workers), "-metadir",
               os.path.join(tmp, "m"), "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = Result()
    r.out = p.stdout + p.stderr
    r.rc = p.returncode
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.error = None
    if "Error:" in r.out or not m or p.returncode not in (0,):
        i = r.out.find("Error:")
        r.error = r.out[i:i + 3000] if i >= 0 else r.out[-3000:]
    return r


def tuples(out, tag):
    """PrintT lines <<"tag", ...>>, possibly wrapped over several lines."""
    res = []
    lines = out.splitlines()
    i = 0
    start = f'<<"{tag}"'
    while i < len(lines):
        ln = lines[i]
        if ln.startswith(start) or ln.startswith('<< "' + tag + '"'):
            buf = ln
            while buf.count("<<") > buf.count(">>") and i + 1 < len(lines):
                i += 1
                buf += " " + lines[i].strip()
            res.append(buf)
        i += 1
    return res
