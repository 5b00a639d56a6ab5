"""Shared machinery of the concrete replays (run with the project's own interpreter).

A replay drives the real code in /repo with generated inputs / histories and
compares every step with an independent oracle.  It looks for a failing input
for a failed proof obligation and validates the trusted library contracts; it
is a bounded search and is reported as such.
"""
import argparse, json, os, random, signal, sys, time, traceback, hashlib

REPO = os.environ.get("DV_REPO", "/repo")
sys.dont_write_bytecode = True
for p in (os.path.join(REPO, "mllm-kernel"), REPO):
    if p not in sys.path:
        sys.path.insert(0, p)


class Fail(Exception):
    def __init__(self, what, key=None):
        super().__init__(what)
        self.what, self.key = what, key


def check(cond, what, key=None):
    if not cond:
        raise Fail(what, key)


class Skip(Exception):
    """case not applicable"""


class Hang(BaseException):
    pass


def _hang(*a):
    raise Hang()


def run_one(run, case, cpu=20):
    """None or (what, key); a case that uses more than cpu seconds of processor time counts as not terminating"""
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        run(case)
        return None
    except Hang:
        return "the operations do not terminate (%d s of processor time used)" % cpu, "hang"
    except Skip:
        return None
    except Fail as e:
        return e.what, e.key
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + "/")]
        if not where:
            raise
        f = where[-1]
        return "%s: %s raised by %s (%s)" % (type(e).__name__, e, f.name, os.path.relpath(f.filename, REPO)), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def shrink(run, case, bad, limit=400):
    """greedy removal on the list fields named in case['_shrink']"""
    n = 0
    best = case
    hang = bad[1] == "hang"
    if hang:
        limit = 20
    for field in case.get("_shrink", ["ops"]):
        if field not in best:
            continue
        size = max(1, len(best[field]) // 2)
        while size >= 1:
            i = 0
            while i < len(best[field]) and n < limit:
                c = dict(best)
                c[field] = best[field][:i] + best[field][i + size:]
                n += 1
                try:
                    r = run_one(run, c, 2) if hang else run_one(run, c)
                except Exception:
                    r = None
                if r is not None and (bad[1] is None or r[1] == bad[1]):
                    best, bad = c, r
                else:
                    i += size
            size //= 2
    return best, bad


def main(prop, groups):
    """groups: list of (name, gen(rng, i) -> case | None, run(case), quick count, thorough count)"""
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=120.0)
    ap.add_argument("--escalate", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--known", default=None, help="comma separated keys of known findings")
    a = ap.parse_args()
    gd = {g[0]: g for g in groups}
    if a.replay:
        d = json.load(open(a.replay))
        f = d["failing_input"]
        r = run_one(gd[f["group"]][2], f["case"])
        print("FAILS: %s" % r[0] if r else "passes")
        sys.exit(1 if r else 0)
    t0 = time.time()
    res = {"property": prop, "groups": {}, "failures": [], "known": []}
    known = set((a.known or "").split(",")) - {""}
    seen = set()
    for gi, (name, gen, run, nq, nt) in enumerate(groups):
        n = int((nq if a.tier == "quick" else nt) * a.escalate)
        rng = random.Random("%s/%s/%d" % (prop, name, a.seed))
        done = 0
        tg = time.time()
        gb = max(2.0, (a.budget - (tg - t0)) / (len(groups) - gi))
        for i in range(n):
            if time.time() - tg > gb:
                break
            case = gen(rng, i)
            if case is None:
                break
            done += 1
            r = run_one(run, case)
            if r is None:
                continue
            if r[1] in known and r[1] is not None:
                if r[1] not in seen:
                    seen.add(r[1])
                    res["known"].append({"key": r[1], "what": r[0], "group": name, "case": case})
                continue
            case, r = shrink(run, case, r)
            res["failures"].append({"group": name, "what": r[0], "key": r[1], "case": case})
            break
        res["groups"][name] = {"cases": done, "planned": n, "secs": round(time.time() - tg, 2)}
        if len(res["failures"]) >= 3:
            break
    res["secs"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1)[:4000])
    sys.exit(0)
