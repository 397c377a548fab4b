"""Worker: generate, execute and complete a range of sessions."""
from __future__ import annotations

import json
import os
import random
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


COLD = 2      # sessions run before the process has used the library at all


def warm_up(execu):
    """Sessions with threads run in children; loading things once saves most of their time."""
    import c18
    execu.run_session(c18.warm_session())


def main(spec_in, out):
    job = json.load(open(spec_in))
    if job.get("threads"):
        import threads
        threads.install(os.path.join(os.environ["VERIF_REPO"], "serde"))
    import build
    import env
    import execu
    import gen
    import profiles

    res = []
    for k, (name, seed, i, orj) in enumerate(job["jobs"]):
        try:
            if k == COLD and job.get("threads"):
                warm_up(execu)
            if name.startswith("@"):
                sess = job["sessions"][i]
            else:
                g = gen.Gen(f"{name}/{seed}", profiles.PROFILES[name], i)
                sess = g.session(f"{name}_{seed}_{i}", orj)
            build.dress(sess, random.Random(f"dress/{name}/{seed}/{i}"))
            sess.setdefault("src", [name, seed, i, orj])
            if any(e["op"] in ("addS", "addD") for e in sess["events"]) or sess.get("fork"):
                sess = execu.run_forked(sess)
            else:
                sess = execu.run_session(sess)
            if "crash" in sess:
                sess["src"] = [name, seed, i, orj]
            else:
                env.fill(sess)
            res.append(sess)
        except Exception:
            res.append({"crash": traceback.format_exc(), "id": f"{name}_{seed}_{i}",
                        "src": [name, seed, i, orj]})
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
