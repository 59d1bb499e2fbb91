"""check.py <property>: decides one property on the current /repo tree.

VERIF_TIER quick|thorough, VERIF_SEED. Exit 0: every obligation generated from the current source was accepted (and the bounded
runtime oracle found nothing); exit 1 with a VIOLATION line otherwise.
"""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
OUTDIR = os.environ.get("SLMV_OUT", HERE)      # development only
PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
TOTAL = 780.0 if TIER == "quick" else 3300.0          # everything ends by then


def left():
    return TOTAL - (time.time() - T0)


# ---- proofs ------------------------------------------------------------------------------------------------------------
def work(job):
    pid, k, config, seed, limit, z3_ms, total, samples = job
    from slmv import engine
    from contracts import registry
    con = registry()[pid][k]
    # a task that hangs in a library is ended; it then counts as not decided
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError("time limit of the task")))
    signal.alarm(int(total * 1.5) + 30)
    try:
        return job, engine.run_task(con, config, seed=seed, limit=limit, z3_ms=z3_ms, total=total, samples=samples)
    except BaseException as e:
        return job, {"contract": con.name, "config": config, "doc": con.doc, "obligations": [], "paths": 0, "infeasible": 0, "functions": [], "lemmas": [],
                     "externals": [], "vacuous": False, "time": 0.0, "unsupported": ["the engine failed: %s: %s" % (type(e).__name__, str(e)[:300]) +
                                                                                     traceback.format_exc()[-600:]]}
    finally:
        signal.alarm(0)


def prove(pid, jobs, deadline):
    """results in order of jobs; None where the time ran out"""
    res = {}
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(8, len(jobs)))
    try:
        pend = [(i, pool.apply_async(work, (j,))) for i, j in enumerate(jobs)]
        while pend and time.time() < deadline:
            rest = []
            for i, a in pend:
                if a.ready():
                    try:
                        res[i] = a.get()[1]
                        if any(o["status"] == "refuted" for o in res[i]["obligations"]):
                            deadline = min(deadline, time.time() + 40)      # it is decided that the check fails
                    except Exception as e:
                        res[i] = None
                else:
                    rest.append((i, a))
            pend = rest
            if pend:
                time.sleep(0.1)
    finally:
        pool.terminate()
        pool.join()
    return [res.get(i) for i in range(len(jobs))]


# ---- runtime oracle ----------------------------------------------------------------------------------------------------
def start_oracle(pid, prec, seed, budget, scale, tag, hints=None):
    out = os.path.join(SCRATCH, "oracle_%s_%d_%d%s.json" % (pid, prec, seed, tag))
    log = open(out + ".log", "wb")
    cmd = [PY, "-B", os.path.join(HERE, "oracle", "run.py"), "--prop", pid, "--prec", str(prec), "--seed", str(seed), "--budget", str(budget),
           "--scale", str(scale), "--out", out]
    if hints:
        cmd += ["--hints", json.dumps(hints)]
    env = dict(os.environ, TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1", PYTHONDONTWRITEBYTECODE="1", TF_NUM_INTRAOP_THREADS="1",
               TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=SCRATCH, start_new_session=True)
    return p, out, time.time(), budget


def end_oracle(o, wait):
    p, out, t, budget = o
    try:
        p.wait(max(1, wait))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    r = None
    for _ in range(2):
        try:
            r = json.load(open(out))
            break
        except Exception:
            time.sleep(0.1)
    if r is None:
        tail = open(out + ".log", errors="replace").read()[-800:]
        return {"cases": [], "failures": [], "crash": "the oracle gave no result (exit %s): %s" % (p.returncode, tail)}
    return r


# ---- lemmas ------------------------------------------------------------------------------------------------------------
def start_lean():
    try:
        return subprocess.Popen(["lean", os.path.join(HERE, "proofs", "Lemmas.lean")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                cwd=SCRATCH, start_new_session=True)
    except OSError:
        return None


def end_lean(p):
    "accepted without sorry?"
    if p is None:
        return False
    try:
        out = p.communicate(timeout=max(5, min(120, left() - 60)))[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return False
    return p.returncode == 0 and "sorry" not in out and "error" not in out


# ---- known findings --------------------------------------------------------------------------------------------------------
def findings(pid):
    r = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("finding: property=%s " % pid) and " match=" in line:
                r.append(line.split(" match=", 1)[1].strip())
    except OSError:
        pass
    return r


def main():
    global SCRATCH
    pid = sys.argv[1]
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="slmv_")
    try:
        return decide(pid)
    finally:
        import shutil
        if SCRATCH.startswith(tempfile.gettempdir() + "/slmv_"):
            shutil.rmtree(SCRATCH, ignore_errors=True)


def decide(pid):
    quick = TIER == "quick"
    precs = (32, 64)
    if pid in ("C24", "C29", "C30", "C31"):
        precs = (32,)
    seeds = [SEED] if quick else [SEED, SEED + 1, SEED + 2]
    oracles = [start_oracle(pid, p, s, 25 if quick else 240, 2 if quick else 25, "") for p in precs for s in seeds[:1]]
    from contracts import registry
    reg = registry()[pid]
    samples = 3 if quick else 12
    jobs = [(pid, k, cfg, SEED, 20.0 if quick else 60.0, 3000 if quick else 20000, 150.0 if quick else 900.0, samples)
            for k, con in enumerate(reg) for cfg in con.tasks()]
    jobs.sort(key=lambda j: j[2].get("prec") != 64)
    res = prove(pid, jobs, T0 + (330 if quick else 1500))
    # a second, longer attempt for what was neither proved nor refuted
    again = [i for i, r in enumerate(res) if r is not None and any(o["status"] == "unproved" for o in r["obligations"])
             and not any(o["status"] == "refuted" for q in res if q for o in q["obligations"])]
    retried = 0
    if again and left() > 200:
        ej = [jobs[i][:4] + (60.0, 15000, 220.0, samples) for i in again]
        retried = len(ej)
        for i, r in zip(again, prove(pid, ej, time.time() + min(240, left() - 250))):
            if r is not None and sum(o["status"] != "proved" for o in r["obligations"]) <= sum(o["status"] != "proved" for o in res[i]["obligations"]):
                res[i] = r
    orun = [end_oracle(o, min(left() - 60, o[3] + 150 - (time.time() - o[2]) if time.time() - o[2] < o[3] + 100 else 20)) for o in oracles]

    lean = None
    if any(r and r["lemmas"] for r in res):
        lean = end_lean(start_lean())
    # -- what the verifier says
    obls, failed, undecided, fns, lemmas, ext, backends, stime = 0, [], [], set(), set(), set(), {}, 0.0
    proved, sampled, disagree, paths, per, models = 0, 0, [], 0, [], {}
    for j, r in zip(jobs, res):
        name = "%s.%s%s" % (pid, reg[j[1]].name, json.dumps(j[2], sort_keys=True))
        if r is None:
            undecided.append((name, ["time ran out"]))
            per.append({"contract": name, "status": "undecided"})
            continue
        fns |= set(r["functions"])
        lemmas |= set(r["lemmas"])
        ext |= set(r.get("externals", []))
        paths += r["paths"]
        bad = 0
        for o in r["obligations"]:
            obls += 1
            stime += o["time"]
            sampled += o.get("sampled", 0)
            if "disagrees" in o:
                disagree.append((name, o))
            elif o["status"] == "proved":
                proved += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                bad += 1
                failed.append((name, o))
        why = list(r["unsupported"])
        if r["vacuous"] and not why:
            why = ["no obligation was generated"]
        if why:
            undecided.append((name, why))
        per.append({"contract": name, "obligations": len(r["obligations"]), "proved": len(r["obligations"]) - bad, "paths": r["paths"],
                    "undecided": why[:2], "seconds": r["time"]})
        models[reg[j[1]].name] = models.get(reg[j[1]].name, 0) + sum(o.get("sampled", 0) for o in r["obligations"])
    for name, o in disagree:
        undecided.append((name, ["proved and numerically refuted, an error of the verifier: %s" % o["name"]]))

    def bad_cases(rs):
        return [f for r in rs for f in r["failures"]]
    fails = bad_cases(orun)
    extra = []
    if (failed or undecided) and not fails and left() > 60:
        # look harder for a failing input
        hints = []
        for n, o in failed[:20]:
            a = (o.get("counterexample") or {}).get("assignment") or {}
            if a:
                hints.append({k: v for k, v in a.items() if isinstance(v, (int, float))})
        b = max(20, min(150 if quick else 600, left() - 90))
        more = [start_oracle(pid, p, SEED + s, b, 12, "x", hints) for p in precs for s in (1, 2)]
        extra = [end_oracle(o, b + 60 if left() > b + 90 else max(5, left() - 25)) for o in more]
        fails = bad_cases(extra)
    crashes = [r["crash"] for r in orun + extra if "crash" in r]
    ran = sum(c["ok"] + c["bad"] for r in orun + extra for c in r["cases"])

    # -- outcome
    known = findings(pid)
    shown = set()

    def is_known(text):
        for m in known:
            if m in text:
                shown.add(m)
                return True
        return False
    failed = [(n, o) for n, o in failed if not is_known(n + ": " + o["name"])]
    fails = [f for f in fails if not is_known(f["name"] + ": " + f["what"])]
    for m in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (pid, m))
    level = "proof" if not undecided and not failed else "other"
    code = 0
    rp = None
    if failed or fails:
        d = os.path.join(OUTDIR, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s.json" % pid)
        json.dump({
            "property": pid, "case": fails[0] if fails else None, "replay": "%s -B %s/oracle/run.py --case %s" % (PY, HERE, rp) if fails else
            "no failing input was found; the verifier's output follows", "failing_inputs": fails[:5],
            "failed_obligations": [{"contract": n, **o} for n, o in failed[:8]], "failed_count": len(failed),
            "undecided": [{"contract": n, "why": w[:2]} for n, w in undecided[:8]]}, open(rp, "w"), indent=1, default=str)
        for n, o in failed[:6]:
            print("obligation %s: %s %s %s" % (n, o["name"], o["status"], str(o.get("where") or o.get("counterexample") or "")[:240]))
        for f in fails[:3]:
            print("failing input (%d bit) %s: %s" % (f["prec"], f["name"], f["what"][:300]))
        code = 1
    elif undecided:
        for n, w in undecided[:6]:
            print("outside the verifier's reach, bounded check only: %s: %s" % (n, str(w[0])[:240]))
        if crashes and not ran:
            # neither a proof nor a run of the real code: nothing shows that the property holds
            d = os.path.join(OUTDIR, "replays")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % pid)
            json.dump({"property": pid, "case": None, "replay": "neither proved nor executable", "crash": crashes, "undecided": undecided}, open(rp, "w"), indent=1, default=str)
            code = 1

    coverage = {
        "obligations": obls, "discharged": proved,
        "checker_cmd": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s" % (SEED, TIER, pid),
        "trusted_base": [
            "slmv, the verification-condition generator and prover of /verif/slmv (its normaliser's verdicts are sampled numerically in every run)",
            "z3 5.3.2 and cvc5 (python3-vt)", "CPython 3.12 executing the current source text of /repo/pySLM2",
            "assumed contracts on TensorFlow, NumPy, SciPy, Pillow, ALP4, Luxbeam (slmv/shim_*.py)"],
        "functions_under_contract": sorted(fns), "obligations_by_back_end": backends, "solver_seconds": round(stime, 2), "paths": paths,
        "assumed_dependency_operations_used": sorted(ext), "lemmas": sorted(lemmas), "lemmas_accepted_by_lean": lean, "contracts": per, "retried_tasks": retried, "numeric_models_of_obligations_tried": sampled,
        "numeric_models_by_contract": models,
        "undecided": [{"contract": n, "why": [str(x)[:300] for x in w[:2]]} for n, w in undecided],
        "bounded_runtime_oracle": {
            "note": "bounded cross-check on the real TensorFlow: small devices (1 to 13 pixels a side), few iterations; never counted as proved" +
                    ("; it stands in for the undecided contracts of this run" if undecided else ""),
            "cases": [{"prec": r.get("prec"), **c} for r in orun + extra for c in r["cases"]], "crashes": [c[:300] for c in crashes]},
    }
    if level != "proof":
        coverage["explanation"] = "%d of %d obligations discharged; %d contract runs undecided (bounded runtime oracle only), %d obligations failed" % (
            proved, obls, len(undecided), len(failed))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage, "wall_s": round(time.time() - T0, 2), "violations": len(failed) + len(fails),
          "assumptions": ["machine floating point is treated as exact real arithmetic, machine integers as mathematical integers"] +
          ["lemma " + ("proved in proofs/Lemmas.lean (accepted by Lean in this run; that the sums and transforms of the contract are those of the "
                       "lemma is by reading)" if lean else "used without proof") + ": " + l for l in sorted(lemmas)] +
          ["dependencies behave as their assumed contracts in slmv/shim_*.py say (operations used: see coverage)"]}
    os.makedirs(os.path.join(OUTDIR, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUTDIR, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d paths (%s), %d undecided, oracle %d cases, %.1f s" % (
        pid, proved, obls, paths, ", ".join("%s %d" % kv for kv in sorted(backends.items())), len(undecided), ran, time.time() - T0))
    if code:
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if not fails:
            line += " no-failing-input-found"
        print(line)
    return code


if __name__ == "__main__":
    try:
        c = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("the check itself failed")
        c = 2
    sys.stdout.flush()
    os._exit(c)
