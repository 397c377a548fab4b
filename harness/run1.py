"""Generate, execute and validate a batch of sessions (development tool)."""
import json, os, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline
if __name__ == "__main__":
    name, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    t = time.time()
    r = pipeline.campaign(name, seed, n)
    print(r.summary()); sys.stdout.flush()
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 10
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    for b in [b for b in r.bad if not only or b["clause"] == only][:n]:
        print("\n".join(x[:700] for x in pipeline.describe(b).split("\n")))
    print("wall", round(time.time() - t, 1))
