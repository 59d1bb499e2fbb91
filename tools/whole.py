"""python3-vt tools/past.py [Cxx ...]: cost and outcome of every contract's first 32-bit config with whole numbers"""
import os, sys, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from concurrent.futures import ProcessPoolExecutor
from slmv import engine
from contracts import registry
reg = registry()
jobs = []
for pid in sorted(reg):
    if len(sys.argv) > 1 and pid not in sys.argv[1:]:
        continue
    for k, con in enumerate(reg[pid]):
        jobs += [(pid, k, cfg) for cfg in con.tasks() if cfg.get("whole")]


def run(j):
    pid, k, cfg = j
    con = registry()[pid][k]
    r = engine.run_task(con, cfg)
    bad = [o for o in r["obligations"] if o["status"] != "proved" or "disagrees" in o]
    return "%s.%s %s: %d paths, %d obligations, %d bad, unsupported %s, %.1fs %s" % (
        pid, con.name, cfg, r["paths"], len(r["obligations"]), len(bad), [u[:150] for u in r["unsupported"][:2]], r["time"],
        [(o["name"], o["status"], o.get("where", "")[:160]) for o in bad[:3]])


if __name__ == "__main__":
    with ProcessPoolExecutor(int(os.environ.get('W', 5))) as ex:
        for r in ex.map(run, jobs):
            print(r, flush=True)
