"""Explores the configurations of a property symbolically, replays what it finds
on the untouched package and writes the evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpconn
import os
import random
import re
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
if SITE not in sys.path:
    sys.path.append(SITE)

PATH_S = 30          # watchdog of one path
FIRST_S = 15     # a configuration that takes longer is put behind the others
REPLAY_S = 60        # one replayed run


def run_jobs(jobs, tmo=None):
    """replay on the untouched package; None for a job that gave no result"""
    if not jobs:
        return []
    import tempfile
    fd, name = tempfile.mkstemp(prefix="sxjobs")
    with os.fdopen(fd, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    try:
        p = subprocess.run([REPO_PY, os.path.join(VERIF, "sx", "replay.py"), name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=tmo or (REPLAY_S * len(jobs) + 30), text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        err = p.stderr
    except subprocess.TimeoutExpired as e:
        out = []
        err = "timeout"
    finally:
        os.unlink(name)
    if len(out) < len(jobs):
        out += [None] * (len(jobs) - len(out))
        if err and os.environ.get("SX_DEBUG"):
            sys.stderr.write(err[-2000:])
    return out


def explore(conf, deadline, seed, samples):
    """all paths of one configuration; returns a result dict"""
    from . import core, loader, ctx as ctxmod
    t0 = time.time()
    eng = core.Engine()
    core.set_engine(eng)
    eng.restart()
    st = eng.stats
    entered = set()
    path = os.path.join(VERIF, "harness", conf["harness"] + ".py")
    rnd = random.Random("%s/%s" % (seed, conf["name"]))
    cands = []        # (msg, inputs)
    jobs = []         # sampled paths: (job, expected observations)
    fallback = []     # inputs of paths the engine could not follow
    notes = {}
    seen = 0
    exhaustive = True
    limit = min(deadline, t0 + conf.get("max_s", 1e9))
    confirmed = []
    spurious = []
    ncand = 0
    timed_out = False
    attempts = 1

    def note(k):
        notes[k] = notes.get(k, 0) + 1

    def alarm(*a):
        raise core.PathTimeout()

    signal.signal(signal.SIGALRM, alarm)

    def job(inputs):
        return {"harness": conf["harness"], "func": conf["func"],
                "params": conf["params"], "inputs": inputs}

    while True:
        eng.reset_path()
        c = ctxmod.SymCtx(eng)
        st.paths += 1
        kind = None
        try:
            signal.setitimer(signal.ITIMER_REAL, PATH_S)
            try:
                w = loader.World(entered)
                m = w.load_harness(path, conf["harness"])
                getattr(m, conf["func"])(c, **conf["params"])
                kind = "done"
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.Infeasible:
            kind = "infeasible"
            st.infeasible += 1
        except core.Violation as e:
            kind = "violation"
            msg = e.msg
        except core.Unsupported as e:
            kind = "unsupported"
            note("unsupported: " + str(e)[:120])
            st.unsupported += 1
        except core.PathTimeout:
            kind = "timeout"
            note("path timeout")
            st.timeouts += 1
        except core.NonDeterministic as e:
            kind = "nondet"
            note("nondeterministic: " + str(e)[:200])
            exhaustive = False
            break
        except MemoryError:
            kind = "timeout"
            note("out of memory")
            st.timeouts += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            own = [f for f in tb if f.filename.startswith(loader.REPO_SRC)]
            last = own[-1] if own else tb[-1]
            kind = "violation"
            try:
                text = str(str(e)[:120])
            except (Exception, core.Unsupported):
                text = "(text of a symbolic value)"
            msg = "unexpected %s: %s (%s:%s)" % (type(e).__name__, text,
                                                 os.path.basename(last.filename), last.name)
            if os.environ.get("SX_DEBUG"):
                sys.stderr.write("".join(traceback.format_tb(e.__traceback__))[-900:] + msg)
        if eng.incomplete:
            note("solver gave up on a branch")
            exhaustive = False
        if kind == "done":
            st.completed += 1
            seen += 1
            take = len(jobs) < samples
            at = None
            if not take:
                k = rnd.randrange(seen)
                if k < samples:
                    take, at = True, k
            if take:
                try:
                    cc = ctxmod.Concretiser(eng)
                    exp = []
                    for label, v in eng.observed:
                        try:
                            exp.append([label, cc.value(v)])
                        except core.Unsupported:
                            exp.append([label, None])
                    e = (job(cc.inputs()), exp)
                    if not cc.plausible():
                        raise core.Unsupported("a decision about a digest that the real digest does not meet")
                    if at is None:
                        jobs.append(e)
                    else:
                        jobs[at] = e
                except core.Unsupported as e:
                    note("sample not concrete: " + str(e)[:80])
        elif kind in ("violation", "unsupported", "timeout"):
            if kind != "violation":
                exhaustive = False
            try:
                inp = ctxmod.Concretiser(eng).inputs()
            except core.Unsupported as e:
                note("counterexample not concrete: " + str(e)[:80])
                exhaustive = False
                inp = None
            if inp is not None and kind == "violation":
                ncand += 1
                r = run_jobs([job(inp)])[0]
                if r is not None and (r["stopped"] or not r["violation"]):
                    # inputs equal to digests in the model: use the real digests
                    try:
                        cc = ctxmod.Concretiser(eng)
                        if cc.use_digests():
                            inp2 = cc.inputs()
                            r2 = run_jobs([job(inp2)])[0]
                            if r2 is not None and r2["violation"] and not r2["stopped"]:
                                inp, r = inp2, r2
                    except core.Unsupported:
                        pass
                if r is not None and not r["violation"] and conf["harness"] == "keys":
                    # it may depend on what the cryptography computes
                    again = dict(job(inp), attempts=3000)
                    r2 = run_jobs([again])[0]
                    if r2 is not None and r2["violation"]:
                        inp, r = r2["inputs"], r2
                        attempts = 3000
                if r is None:
                    spurious.append({"msg": msg + " (replay gave no result)", "inputs": inp})
                elif r["violation"] and not r["stopped"]:
                    confirmed.append({"msg": r["violation"], "predicted": msg, "inputs": inp, "attempts": attempts})
                else:
                    spurious.append({"msg": msg, "inputs": inp})
                if len(confirmed) >= conf.get("max_violations", 1) or ncand >= 12:
                    exhaustive = False
                    break
                if len(spurious) >= 4:
                    exhaustive = False
                    break
            elif inp is not None and len(fallback) < 12:
                fallback.append(job(inp))
        if time.time() > limit:
            if eng.backtrack():
                exhaustive = False
                note("time limit")
                timed_out = limit < deadline
            break
        if st.unsupported + st.timeouts > 60:
            exhaustive = False
            note("too many paths the engine cannot follow")
            break
        if not eng.backtrack():
            break
    # sampled paths and the paths the engine could not follow, on the real code
    res = run_jobs([j for j, _ in jobs] + fallback) if not confirmed else []
    validated = 0
    mismatch = []
    for (j, exp), r in zip(jobs, res):
        if r is None or r["stopped"]:
            mismatch.append({"inputs": j["inputs"], "why": "no result" if r is None else "stopped"})
            continue
        if r["violation"]:
            confirmed.append({"msg": r["violation"], "predicted": "(sampled path)",
                              "inputs": j["inputs"]})
            continue
        got = r["observed"]
        ok = len(got) == len(exp)
        if ok:
            for (l1, a), (l2, b) in zip(exp, got):
                if l1 != l2 or (a is not None and a != b):
                    ok = False
                    break
        if ok:
            validated += 1
        else:
            mismatch.append({"inputs": j["inputs"], "expected": exp, "got": got})
    for j, r in zip(fallback, res[len(jobs):]):
        if r is not None and r["violation"]:
            confirmed.append({"msg": r["violation"], "predicted": "(concrete run)",
                              "inputs": j["inputs"]})
    wit = [t for t in conf.get("cover", []) if t not in eng.covered]
    return {
        "name": conf["name"], "harness": conf["harness"], "func": conf["func"],
        "params": conf["params"],
        "stats": {f: getattr(st, f) for f in core.Stats.FIELDS},
        "entered": sorted(entered), "covered": sorted(eng.covered), "missing_cover": wit,
        "exhaustive": exhaustive and not spurious, "notes": notes,
        "confirmed": confirmed, "spurious": spurious, "mismatch": mismatch,
        "validated": validated, "fallback": len(fallback),
        "sample": jobs[-1][0]["inputs"] if jobs else None, "timed_out": timed_out,
        "wall_s": round(time.time() - t0, 2),
    }


def workers(args, jobs, tmo):
    """results of _worker for every element of args, one process each, as they come"""
    c = mp.get_context("fork")
    todo = args
    live = {}
    end = time.time() + tmo
    try:
        while todo or live:
            while todo and len(live) < jobs:
                a = todo.pop(0)
                r, w = c.Pipe(False)
                p = c.Process(target=_child, args=(w, a), daemon=False)
                p.start()
                w.close()
                live[r] = (p, a)
            ready = mpconn.wait(list(live), timeout=5)
            for r in ready:
                p, a = live.pop(r)
                try:
                    res = r.recv()
                except (EOFError, OSError):
                    p.join(5)
                    res = {"name": a[0]["name"], "error": "the process ended (%s)" % p.exitcode}
                r.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                yield res
            if time.time() > end:
                return
    finally:
        for p, a in live.values():
            p.terminate()
        for p, a in live.values():
            p.join(5)


def _child(w, a):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    w.send(_worker(a))
    w.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _worker(args):
    conf, deadline, seed, samples = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    try:
        if time.time() > deadline:
            return {"name": conf["name"], "skipped": True}
        return explore(conf, deadline, seed, samples)
    except BaseException as e:
        return {"name": conf["name"], "error": traceback.format_exc()[-3000:]}


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) (\{.*\})$", l.strip())
                if m and m.group(1) == prop:
                    out.append(json.loads(m.group(2)))
    except FileNotFoundError:
        pass
    return out


def matches(k, conf, v):
    return (k.get("func") in (None, conf["func"]) and
            all(conf["params"].get(a) == b for a, b in k.get("params", {}).items()) and
            re.search(k["match"], v["msg"]) is not None)


def check(prop, plan, tier, seed, only=None, jobs=8):
    """runs one property; returns the exit code"""
    t0 = time.time()
    budget = float(os.environ.get("SX_BUDGET", 0)) or (420 if tier == "quick" else 3000)
    deadline = t0 + budget
    confs = [c for c in plan["configs"] if tier == "thorough" or c.get("tier", "quick") == "quick"]
    if only:
        confs = [c for c in confs if re.search(only, c["name"])]
    known = known_findings(prop)
    for c in confs:
        if known:
            c["max_violations"] = 10
    samples = plan.get("samples", 2)
    results = []
    order = sorted(confs, key=lambda c: c.get("weight", 1))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    violations = 0
    knowns = set()
    reported = []
    from . import core, loader, ctx as ctxmod      # before the processes are forked
    dbg = os.environ.get("SX_DEBUG") or os.environ.get("SX_VERBOSE")
    late = set()
    for c in order:
        c["max_s"] = FIRST_S
    todo = [(c, deadline, seed, samples) for c in order]
    it = workers(todo, jobs, budget + 180)
    try:
        byname = {c["name"]: c for c in confs}
        for r in it:
            if r.get("timed_out") and not r["confirmed"] and r["name"] not in late:
                # the other configurations first, then this one again without that limit
                late.add(r["name"])
                c = dict(byname[r["name"]])
                del c["max_s"]
                todo.append((c, deadline, seed, samples))
                continue
            results.append(r)
            if dbg and "stats" in r:
                print("%-60s paths %6d done %6d inf %5d uns %3d q %6d chk %6d/%d %6.1fs%s%s%s" % (
                    r["name"], r["stats"]["paths"], r["stats"]["completed"],
                    r["stats"]["infeasible"],
                    r["stats"]["unsupported"] + r["stats"]["timeouts"],
                    r["stats"]["queries"], r["stats"]["checks_solver"], r["stats"]["checks"],
                    r["wall_s"],
                    "" if r["exhaustive"] else " NOT EXHAUSTIVE", " " + str(r["notes"]) if r["notes"] else "",
                    " MISSING " + str(r["missing_cover"]) if r["missing_cover"] else ""), flush=True)
                for s in r["spurious"]:
                    print("   SPURIOUS", s)
                for s in r["mismatch"]:
                    print("   MISMATCH", json.dumps(s)[:1500])
            if "error" in r:
                print("ERROR in %s\n%s" % (r["name"], r["error"]), flush=True)
            for v in r.get("confirmed", ()):
                k = [k for k in known if matches(k, byname[r["name"]], v)]
                if k:
                    knowns.add(k[0]["what"])
                    continue
                violations += 1
                if violations > 5:
                    continue
                f = os.path.join("evidence", "replays", "%s-%d.json" % (prop, violations))
                with open(os.path.join(VERIF, f), "w") as g:
                    json.dump({"property": prop, "harness": r["harness"], "func": r["func"],
                               "params": r["params"], "inputs": v["inputs"], "message": v["msg"],
                               "predicted": v["predicted"], "attempts": v.get("attempts", 1),
                               "run": "%s sx/replay.py --show %s" % (REPO_PY, f)}, g, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
                print("  %s: %s" % (r["name"], v["msg"]), flush=True)
                reported.append({"config": r["name"], "message": v["msg"], "inputs": v["inputs"]})
            if violations and not os.environ.get("SX_ALL"):
                break
    finally:
        it.close()
    for w in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    write_evidence(prop, plan, tier, seed, confs, results, violations, reported, t0)
    errs = [r for r in results if "error" in r]
    done = [r for r in results if "stats" in r]
    sp = sum(len(r["spurious"]) for r in done)
    mm = sum(len(r["mismatch"]) for r in done)
    notex = [r["name"] for r in done if not r["exhaustive"]]
    miss = [r["name"] for r in done if r["missing_cover"]]
    print("%s %s: %d/%d configurations, %d paths, %d queries, %.1f s; %d violation(s)%s%s%s%s" % (
        prop, tier, len(done), len(order), sum(r["stats"]["paths"] for r in done),
        sum(r["stats"]["queries"] for r in done), time.time() - t0, violations,
        "; not exhaustive: %s" % notex[:6] if notex else "",
        "; unconfirmed counterexamples: %d" % sp if sp else "",
        "; model mismatches: %d" % mm if mm else "",
        "; witnesses missing: %s" % miss[:6] if miss else ""))
    if violations:
        return 1
    if errs and len(errs) == len(results):
        return 2
    return 0


def write_evidence(prop, plan, tier, seed, confs, results, violations, reported, t0):
    done = [r for r in results if "stats" in r]
    tot = {}
    for r in done:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    entered = sorted({e for r in done for e in r["entered"]})
    notes = {}
    for r in done:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    cov = {
        "states": tot.get("completed", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": sum(r["validated"] for r in done),
        "samples": [{"config": r["name"], "inputs": r["sample"]} for r in done if r["sample"] is not None][:5],
        "exhaustive": bool(done) and len(done) == len(confs) and all(r["exhaustive"] for r in done),
        "meaning": "states = symbolic paths followed to their end, each standing for all inputs "
                   "that take it; transitions = branch decisions put to the solver; traces = "
                   "solver models of sampled paths run on the untouched package with the same "
                   "observations",
        "configurations": len(confs),
        "configurations_explored_completely": sum(1 for r in done if r["exhaustive"]),
        "bounds": plan.get("bounds", ""),
        "outside_the_bounds": plan.get("outside", ""),
        "functions_encoded": entered,
        "paths": tot.get("paths", 0),
        "paths_infeasible": tot.get("infeasible", 0),
        "paths_unsupported_or_timeout": tot.get("unsupported", 0) + tot.get("timeouts", 0),
        "solver_queries": tot.get("queries", 0),
        "queries_sat": tot.get("sat", 0), "queries_unsat": tot.get("unsat", 0),
        "queries_unknown": tot.get("unknown", 0),
        "assertions": tot.get("checks", 0),
        "assertions_put_to_the_solver": tot.get("checks_solver", 0),
        "assertions_true_by_simplification": tot.get("trivial", 0),
        "solver_s": round(tot.get("solver_s", 0), 2),
        "reachability_witnesses": sorted({t for r in done for t in r["covered"]}),
        "witnesses_missing": sorted({r["name"] + ":" + t for r in done for t in r["missing_cover"]}),
        "counterexamples_not_reproduced": [dict(s, config=r["name"]) for r in done for s in r["spurious"]][:5],
        "model_mismatches": [dict(s, config=r["name"]) for r in done for s in r["mismatch"]][:5],
        "notes": notes,
        "per_configuration": [
            {"name": r["name"], "paths": r["stats"]["paths"], "queries": r["stats"]["queries"],
             "solver_s": round(r["stats"]["solver_s"], 2), "wall_s": r["wall_s"],
             "exhaustive": r["exhaustive"]} for r in sorted(done, key=lambda r: r["name"])],
        "errors": [r["name"] + ": " + r["error"][-400:] for r in results if "error" in r],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    if reported:
        ev["coverage"]["violations_found"] = reported
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
