#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of the library in $REPO (default /repo).

Cases are generated by TLC from the generating specifications, run on the library built from the working
tree, and the recorded histories are checked by TLC against the machine specification (spec/PireTrace.tla)."""
import json, os, shutil, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
from concurrent.futures import ThreadPoolExecutor
from plan import PLAN, LAWS

# a group of histories that takes longer is divided, a single one is given up
CHUNK_TIME = {"quick": 12, "thorough": 150}
BUDGET = {"quick": 400, "thorough": 20000}


def stamp(t0, msg):
    print("[%6.1fs] %s" % (time.time() - t0, msg), flush=True)


def run_laws(work, prop, tier):
    """Properties of the specification itself: TLC checks them on the model alone."""
    tot = {"states": 0, "transitions": 0, "models": []}
    for i, law in enumerate(LAWS.get(prop, [])):
        if tier == "quick" and law.get("thorough_only"):
            continue
        consts = dict(law.get("consts", {}))
        if tier == "thorough":
            consts.update(law.get("thorough_consts", {}))
        cfg = "SPECIFICATION Spec\nINVARIANTS %s\n" % " ".join(law["invariants"])
        if consts:
            cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
        rc, out = engine.tlc(work, "law%d" % i, law["module"], cfg, ["-deadlock", "-workers", "4"], timeout=700)
        if rc != 0:
            raise engine.Broken("the specification breaks its own law %s (%d)\n%s" % (law["module"], rc, out[-2500:]))
        g, s = engine.stats(out)
        tot["states"] += s
        tot["transitions"] += g
        tot["models"].append({"module": law["module"], "consts": consts, "invariants": law["invariants"], "states": s})
    return tot


def generate(work, i, job, tier, seed):
    consts = {k: v for k, v in job.get("consts", {}).items()}
    if tier == "thorough":
        consts.update(job.get("thorough_consts", {}))
    num = job.get("num")
    if num is not None:
        num = job.get("thorough_num", num * 8) if tier == "thorough" else num
        # several generators side by side, each with a seed of its own
        parts = 1 if num <= 300 else (2 if num <= 1500 else 4)
        per = (num + parts - 1) // parts
        with ThreadPoolExecutor(parts) as ex:
            outs = list(ex.map(lambda k: engine.generate(work, "gen%d_%d" % (i, k), job["module"], consts,
                                                         seed=seed * 1000 + i * 10 + k, num=per,
                                                         depth=job.get("depth", 60), timeout=600), range(parts)))
        cases = [c for o in outs for c in o[0]]
        states = sum(o[1] for o in outs)
    else:
        cases, states = engine.generate(work, "gen%d" % i, job["module"], consts, timeout=700)
        cases.sort(key=json.dumps)
    return cases, states


def confirm(work, build, ops, t0, binary):
    """Runs the case alone, in a fresh process, and has it judged again."""
    for attempt in range(2):
        res, cut = engine.drive(build, {1: ops}, timeout_s=100, procs=1, binary=binary)
        v = engine.judge(work, "confirm%d_%s" % (attempt, threading.get_ident()), [(1, res[1])], timeout=300, workers=2)
        if not v["ok"] and not v["timeout"]:
            return v, res[1]
    return None, None


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="pire-%s-" % prop.lower())
    try:
        return decide(work, prop, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work, prop, tier, seed, t0):
    jobs = PLAN[prop]
    jobs = [j for j in jobs if tier == "thorough" or not j.get("thorough_only")]
    pool = ThreadPoolExecutor(8)
    fb = pool.submit(engine.build, work)
    fl = pool.submit(run_laws, work, prop, tier)
    gens = [pool.submit(generate, work, i, job, tier, seed) for i, job in enumerate(jobs)]
    build = fb.result()
    stamp(t0, "built")
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "samples": 0,
           "cases_cut_short": 0, "cases_undecided": 0, "generator_states": 0, "jobs": []}
    failures = []
    stop = threading.Event()

    def judge_chunk(name, chunk):
        """Verdicts on parts of the chunk: [(part, verdict)]."""
        if stop.is_set() or time.time() - t0 > BUDGET[tier]:
            return [(chunk, None)]
        v = engine.judge(work, name, chunk, timeout=CHUNK_TIME[tier] + 0.1 * len(chunk), workers=1, xmx="3g")
        if not v["timeout"] or len(chunk) == 1:
            return [(chunk, v)]
        return [x for k in range(min(6, len(chunk))) for x in judge_chunk("%s_%d" % (name, k), chunk[k::6])]

    pending = []
    jpool = ThreadPoolExecutor(8)
    known = engine.known_findings(prop)
    for i, job in enumerate(jobs):
        cases, gstates = gens[i].result()
        binary = job.get("binary", "driver")
        all_cases = dict(enumerate(cases, 1))
        res, cut = engine.drive(build, all_cases, binary=binary, timeout_s=job.get("timeout", 20), slow=job.get("slow", False))
        items = [(k, ev) for k, ev in sorted(res.items()) if ev]
        events = sum(len(ev) for k, ev in items)
        stamp(t0, "job %d %s %s: %d cases, %d events" % (i, job["module"], job.get("consts", {}), len(items), events))
        cov["generator_states"] += gstates
        cov["cases_cut_short"] += cut
        cov["jobs"].append({"module": job["module"], "consts": job.get("consts", {}), "cases": len(items), "events": events,
                            "exhaustive": job.get("num") is None})
        n = job.get("chunk", 400)
        nchunks = max((len(items) + n - 1) // n, 8 if len(items) >= 200 else (4 if len(items) >= 40 else 1))
        for c in range(nchunks):
            chunk = items[c::nchunks]
            pending.append((i, chunk, all_cases, binary, jpool.submit(judge_chunk, "j%d_%d" % (i, c), chunk)))
    good = []
    for i, whole, all_cases, binary, fut in pending:
        if failures:
            break
        for chunk, v in fut.result():
            if v is None:
                cov["cases_undecided"] += len(chunk)
                continue
            cov["states"] += v["states"]
            cov["transitions"] += v["transitions"]
            if v["timeout"]:
                cov["cases_undecided"] += len(chunk)
                continue
            if v["ok"]:
                cov["traces_validated_against_impl"] += len(chunk)
                cov["events_validated"] += sum(len(ev) for k, ev in chunk)
                good.append(chunk)
                continue
            ops = all_cases[v["id"]]
            stamp(t0, "job %d case %d: %s at %s; confirming" % (i, v["id"], v["what"], json.dumps(v["op"])[:300]))
            w, ev = confirm(work, build, ops, t0, binary)
            if w is None:
                stamp(t0, "not reproduced when run alone")
                cov["cases_undecided"] += len(chunk)
                continue
            failures.append((i, v["id"], ops, w, ev))
            stop.set()
            break
    stop.set()
    if not failures:
        # the binding itself: a history with a falsified result must be rejected
        for chunk in good[::-1]:
            bad = next((c for c in (engine.corrupted(ev) for k, ev in chunk) if c), None)
            if bad:
                v = engine.judge(work, "corrupt", [(1, bad)], timeout=200)
                if v["ok"]:
                    raise engine.Broken("a falsified history was accepted")
                cov["falsified_history_rejected"] = not v["ok"] and not v["timeout"]
                break
    laws = fl.result() if not failures else {"states": 0, "transitions": 0, "models": []}
    pool.shutdown(wait=False, cancel_futures=True)
    jpool.shutdown(wait=True, cancel_futures=True)
    cov["states"] += laws["states"]
    cov["transitions"] += laws["transitions"]
    cov["models_checked"] = laws["models"]
    cov["samples"] = [" ; ".join(map(engine.render, all_cases[k]))[:600] for i, chunk, all_cases, b, f in pending[::max(1, len(pending) // 5)]
                      for k, ev in chunk[:1]]
    for n, k in enumerate(known):      # recorded findings: each is tried, and named as long as it is there
        res, cut = engine.drive(build, {1: k["case"]}, procs=1)
        v = engine.judge(work, "known%d" % n, [(1, res[1])], timeout=100)
        if not v["ok"] and not v["timeout"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, tier, seed, cov, time.time() - t0, failures)
    stamp(t0, "%d cases and %d events conform, %d undecided, %d cut short; %d states explored" %
          (cov["traces_validated_against_impl"], cov["events_validated"], cov["cases_undecided"], cov["cases_cut_short"], cov["states"]))
    if failures:
        i, cid, ops, v, ev = failures[0]
        d = os.path.join(engine.ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (prop, seed, cid))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v["what"], "at": v["op"], "case": ops, "driver_input": " ; ".join(map(engine.render, ops)),
                       "binary": jobs[i].get("binary", "driver"), "events": ev}, f, indent=1)
        print("what: %s at event %s: %s" % (v["what"], v.get("pos"), json.dumps(v["op"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if cov["traces_validated_against_impl"] == 0:
        raise engine.Broken("nothing was decided")
    return 0


def write_evidence(prop, tier, seed, cov, wall, failures):
    d = os.path.join(engine.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "wall_s": round(wall, 1), "violations": len(failures)}, f, indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except engine.Broken as e:
        print("BROKEN: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
