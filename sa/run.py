"""python3 -m sa.run <property>: decide one property on /repo's current source."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Late(Exception):
    pass


def _alarm(*a):
    raise Late()


def _work(job):
    prop, fname, args, limit = job
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    name = "%s%r" % (fname, tuple(args))
    out = {"job": name, "obs": [], "runs": 0, "unknown": {}, "funcs": []}
    try:
        from . import checks, scen
        n0 = len(scen.RUNS)
        from . import term as tm
        tm.BIGS.clear()
        out["obs"] = getattr(checks, fname)(*args)
        bigs = set(tm.BIGS)
        if bigs and not any(o["k"] == "bad" for o in out["obs"]) and any(o["k"] == "und" for o in out["obs"]):
            out["obs"] = out["obs"] + reduced(checks, scen, tm, fname, args, bigs)
        rs = scen.RUNS[n0:]
        fs = set()
        for r in rs:
            fs |= set(r[1])
            for k, v in r[2].items():
                out["unknown"][k] = out["unknown"].get(k, 0) + v
        out["runs"] = len(rs)
        out["steps"] = sum(r[3] for r in rs)
        out["keys"] = [r[0] for r in rs]
        out["funcs"] = sorted(fs)
    except Late:
        out["obs"] = [{"ob": name, "k": "und", "why": "time limit", "where": ""}]
    except MemoryError:
        out["obs"] = [{"ob": name, "k": "und", "why": "memory limit", "where": ""}]
    except RecursionError:
        out["obs"] = [{"ob": name, "k": "und", "why": "recursion", "where": ""}]
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        out["obs"] = [{"ob": name, "k": "und", "where": "",
                       "why": "analysis error %s: %s (%s:%s)" % (type(ex).__name__, str(ex)[:200], os.path.basename(tb.filename), tb.lineno)}]
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    out["wall"] = time.time() - t0
    return out


def reduced(checks, scen, tm, fname, args, bigs):
    """sizes are compared with large constants: the same obligations with those constants made small, so that
    both sides of the comparison are within the sampled sizes; only violations are kept"""
    r = []
    for small in (2, 6):
        tm.RESCALE = {}
        for k in sorted(bigs, reverse=True):
            for d in (-1, 0, 1):
                if k + d not in bigs or d == 0:
                    tm.RESCALE[k + d] = small + d
        scen._CACHE.clear()
        try:
            r += [dict(o, why="with the size threshold %s reduced to %d: %s" % (sorted(bigs)[0], small, o["why"]))
                  for o in getattr(checks, fname)(*args) if o["k"] == "bad"]
        except Late:
            break
        except Exception:
            pass
        finally:
            tm.RESCALE = {}
            scen._CACHE.clear()
        if r:
            break
    return r


def known():
    d = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> where=<..> what=<..>
                f = dict(x.split("=", 1) for x in l[6:].strip().split(" | ") if "=" in x)
                d.append({k.strip(): v.strip() for k, v in f.items()})
    return d


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    verbose = "-v" in argv
    t0 = time.time()
    from . import checks
    spec = checks.CHECKS[prop]
    jobs = spec["jobs"](tier)
    limit = 240 if tier == "quick" else 700
    total = 800 if tier == "quick" else 3000
    work = [(prop, f, a, limit) for f, a in jobs]
    results = []
    ctx = mp.get_context("fork")
    nproc = min(int(os.environ.get("SA_PROCS", "8")), max(1, len(work)))
    pool = ctx.Pool(nproc, maxtasksperchild=spec.get("tasks", 6))
    it = pool.imap_unordered(_work, work)
    late = 0
    for _ in work:
        try:
            results.append(it.next(timeout=max(1, total - (time.time() - t0))))
        except mp.TimeoutError:
            late = len(work) - len(results)
            break
    pool.terminate()
    pool.join()
    for i in range(late):
        results.append({"job": "?", "obs": [{"ob": "unfinished analysis", "k": "und", "why": "time limit", "where": ""}],
                        "runs": 0, "unknown": {}, "funcs": [], "wall": 0})
    obs = [o for r in results for o in r["obs"]]
    okn = sum(o["k"] == "ok" for o in obs)
    bad = [o for o in obs if o["k"] == "bad"]
    und = [o for o in obs if o["k"] == "und"]
    funcs = sorted({f for r in results for f in r["funcs"]})
    unknown = {}
    for r in results:
        for k, v in r["unknown"].items():
            unknown[k] = unknown.get(k, 0) + v
    keys = sorted({k for r in results for k in r.get("keys", ())})
    kn = [k for k in known() if k.get("property") == prop]
    listed, viol = [], []
    for o in bad:
        hit = None
        for k in kn:
            if k.get("where", "") in o["where"] and k.get("what", "\0") in o["why"]:
                hit = k
        (listed if hit else viol).append(o)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": spec["rule"],
            "rule": spec["rule"],
            "obligations": len(obs), "discharged": okn, "undecided": len(und), "violated": len(bad),
            "contexts_analysed": len(keys), "analysed_calls": sum(r["runs"] for r in results),
            "interpreted_statements": sum(r.get("steps", 0) for r in results),
            "functions_analysed": funcs,
            "contexts": keys[:60],
            "unmodelled": {k: v for k, v in sorted(unknown.items())[:40]},
            "undecided_obligations": [{"obligation": o["ob"], "why": o["why"][:200]} for o in und[:40]],
            "samples": [o["ob"] for o in obs if o["k"] == "ok"][:25],
            "violations": [{"obligation": o["ob"], "why": o["why"][:600], "where": o["where"]} for o in bad[:40]],
        },
        "assumptions": spec.get("assumptions", []) + checks.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    out = os.environ.get("SA_OUT") or os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d contexts, %.1f s" % (
        prop, tier, len(obs), okn, len(und), len(bad), len(funcs), len(keys), time.time() - t0))
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("   %6.1f s  %s" % (r["wall"], r["job"][:150]))
    for o in und[:(200 if verbose else 5)]:
        print("undecided: %s: %s" % (o["ob"][:160], o["why"][:200]))
    seen = set()
    for o in listed:
        l = "KNOWN-FINDING: property=%s %s %s" % (prop, o["where"], o["why"][:200])
        if l not in seen:
            seen.add(l)
            print(l)
    if viol:
        rp = os.path.join("evidence", prop + ".violation.json")
        with open(os.path.join(out, prop + ".violation.json"), "w") as f:
            json.dump(viol, f, indent=1)
        for o in viol[:12]:
            print("  %s" % o["ob"][:200])
            print("     %s  at %s" % (o["why"][:400], o["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if okn == 0:
        print("no obligation of %s could be decided: nothing of this tree was explored" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
