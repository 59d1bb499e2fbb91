"""python3-vt tools/try.py C01 [contract] [prec] : run contracts in process and print what happens"""
import os, sys, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from slmv import engine
from contracts import registry
reg = registry()
pid = sys.argv[1]
which = (sys.argv[2] if len(sys.argv) > 2 else None) or None
for con in reg[pid]:
    if which and con.name != which:
        continue
    for cfg in con.configs:
        if len(sys.argv) > 3 and str(cfg.get("prec")) != sys.argv[3]:
            continue
        r = engine.run_task(con, cfg)
        bad = [o for o in r["obligations"] if o["status"] != "proved" or "disagrees" in o]
        print("%s.%s %s: %d paths (%d infeasible), %d obligations, %d bad, unsupported %s, %.1fs" % (
            pid, con.name, cfg, r["paths"], r["infeasible"], len(r["obligations"]), len(bad), r["unsupported"][:3], r["time"]))
        slow = sorted(r["obligations"], key=lambda o: -o["time"])[:1]
        if slow and slow[0]["time"] > 2:
            print("   slowest", slow[0]["name"], slow[0]["time"])
        for o in bad[:3]:
            if os.environ.get("V"):
                print("   ", {k: (str(x)[:int(os.environ["V"])]) for k, x in o.items()})
            else:
                print("   ", o["name"], o["status"], o["backend"], o["time"], o.get("sampled"), o.get("where", "")[:200], str(o.get("counterexample", ""))[:200])
