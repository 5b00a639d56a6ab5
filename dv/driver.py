"""Runs one check: proof obligations from /repo's current source + concrete replay; writes evidence; decides."""
import importlib, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
PYRUN = os.environ.get("DV_PY", "/opt/mllm-venv/bin/python")


def known_for(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, what = rest[4:].split(" ", 1)
                    out[key] = what
    return out


def fingerprint(mods):
    """AST of the modules under contract, without comments, positions and docstrings"""
    import ast, hashlib
    h = hashlib.sha256()
    for mod in sorted(set(mods)):
        if mod.startswith("cxx."):
            from . import pyexec
            try:
                h.update(ast.dump(pyexec.load_module(mod).tree).encode())
            except Exception as e:
                h.update(repr(e).encode())
            continue
        p = os.path.join(REPO, mod)
        if not os.path.exists(p) and not mod.endswith(".py"):
            p = os.path.join(REPO, mod.replace(".", "/") + ".py")
        if p.endswith((".cpp", ".hpp", ".h")):
            try:
                h.update(" ".join(re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(p).read(), flags=re.S).split()).encode())
            except Exception as e:
                h.update(repr(e).encode())
            continue
        try:
            t = ast.parse(open(p).read())
        except Exception as e:
            h.update(repr(e).encode())
            continue
        for n in ast.walk(t):
            b = getattr(n, "body", None)
            if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                b.pop(0)
        h.update(ast.dump(t).encode())
    return h.hexdigest()[:24]


def proved_record(prop):
    """what the last complete proof used: source fingerprint, loop invariants kept per function"""
    p = os.path.join(VERIF, "dv", "proved.json")
    r = json.load(open(p)).get(prop, {}) if os.path.exists(p) else {}
    return r if isinstance(r, dict) else {"fp": r}


def kept_of(infos):
    out = {}
    for i in infos:
        out.setdefault(i["function"], set()).update(k[1] for k in i["kept"])
    return {k: sorted(v) for k, v in out.items() if v}


def misfits(prop, infos):
    """functions whose loop annotations no longer anchor: an invariant the recorded proof used can neither be kept nor tested
    (a loop was restructured or its variables are gone), so a failed obligation there says nothing about the code"""
    kept, have = kept_of(infos), {}
    for i in infos:
        have.setdefault(i["function"], set()).update(d[1] for d in i["dropped"])
    return {f for f, labs in proved_record(prop).get("kept", {}).items() if set(labs) - set(kept.get(f, ())) - have.get(f, set())}


def _verify_one(args):
    prop, qual, mod, deadline, suite = args
    t = time.time()
    try:
        import z3
        m = importlib.import_module("props." + prop.lower())
        if hasattr(m, "verify_one"):
            r = m.verify_one(qual, mod, deadline)
            r["secs"] = round(time.time() - t, 2)
            return r
        from .pyexec import Exec
        s = m.SUITES[suite] if hasattr(m, "SUITES") else m
        g = lambda n, d: s.get(n, d) if isinstance(s, dict) else getattr(s, n, d)
        ex = Exec(g("CONTRACTS", []), g("SCHEMA", {}), records=g("RECORDS", ()), libs=g("LIBS", None), globals_=g("GLOBALS", None))
        for fn in g("SETUP", ()):
            fn(ex)
        info = ex.verify(qual, mod, deadline)
        info["obls"] = [o.d() for o in ex.obls]
        info["dropped"] = ex.dropped
        info["kept"] = ex.kept
        info["trusted"] = sorted(ex.trusted)
        info["inlined"] = sorted(getattr(ex, "inlined", ()))
    except Exception as e:
        info = {"function": "%s:%s" % (mod, qual), "status": "unsupported", "reason": "engine: %s: %s" % (type(e).__name__, e),
                "obls": [], "dropped": [], "kept": [], "trusted": []}
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    info["secs"] = round(time.time() - t, 2)
    return info


def jobs_of(m, prop, deadline):
    out = []
    if hasattr(m, "SUITES"):
        for name, s in m.SUITES.items():
            cons = {c.qual: c for c in s["CONTRACTS"]}
            for q in s["VERIFY"]:
                out.append((prop, q, cons[q].mod, deadline, name))
    elif hasattr(m, "JOBS"):
        for q in m.JOBS:
            out.append((prop, q, "", deadline, None))
    else:
        cons = {c.qual: c for c in getattr(m, "CONTRACTS", [])}
        for q in getattr(m, "VERIFY", []):
            out.append((prop, q, cons[q].mod, deadline, None))
    return out


def lemma_obls(m):
    from . import core
    import z3
    out = []
    t = time.time()
    for name, ok in core.nl_lemma_obligations():
        out.append({"function": "lemma", "obligation": "arithmetic lemma " + name, "kind": "lemma", "status": "proved" if ok else "unknown",
                    "secs": round(time.time() - t, 3), "backend": "z3", "line": None, "detail": ""})
        t = time.time()
    for name, ok, det in (m.static_checks() if hasattr(m, "static_checks") else []):
        out.append({"function": "lemma", "obligation": name, "kind": "encapsulation (syntactic)", "status": "proved" if ok else "unknown", "secs": 0,
                    "backend": "syntactic", "line": None, "detail": det})
    for name, hyps, goal in (m.lemmas() if hasattr(m, "lemmas") else []):
        t = time.time()
        st, be, de, _ = core.prove(hyps, goal, 20000, axioms=[])
        out.append({"function": "lemma", "obligation": name, "kind": "lemma", "status": st, "secs": round(time.time() - t, 3),
                    "backend": be, "line": None, "detail": de})
    return out


def run_concrete(m, prop, tier, seed, known, budget, escalate=1.0):
    script = getattr(m, "REPLAY", None)
    if not script:
        return None
    outf = os.path.join(VERIF, "out", "%s.concrete.%d.json" % (prop, os.getpid()))
    os.makedirs(os.path.dirname(outf), exist_ok=True)
    env = dict(os.environ, PYTHONPATH="%s:%s/mllm-kernel" % (REPO, REPO), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")
    if not isinstance(script, (list, tuple)):
        script = [PYRUN, os.path.join(VERIF, "replay", script)]
    cmd = list(script) + ["--seed", str(seed), "--tier", tier, "--out", outf, "--budget", str(budget), "--escalate", str(escalate),
                          "--known", ",".join(known)]
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(VERIF, "replay")), outf, cmd, budget


def collect_concrete(h):
    if h is None:
        return None
    p, outf, cmd, budget = h
    try:
        o, _ = p.communicate(timeout=budget + 240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "concrete replay timed out (a hang of the code under test or of the harness)"}
    if not os.path.exists(outf):
        return {"error": "concrete replay did not finish: " + o.decode(errors="replace")[-1500:]}
    r = json.load(open(outf))
    os.unlink(outf)
    return r


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DV_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--record", action="store_true", help="remember this source as completely proved")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, VERIF)
    m = importlib.import_module("props." + prop.lower())
    known = known_for(prop)
    budget = 100 if tier == "quick" else 1800
    conc = run_concrete(m, prop, tier, seed, known, budget)
    deadline = 330 if tier == "quick" else 900
    jobs = jobs_of(m, prop, deadline)
    infos = []
    # one process per function, killed at its deadline
    from concurrent.futures import ProcessPoolExecutor, as_completed
    ctx = mp.get_context("fork")
    running, todo = [], list(jobs)
    q = ctx.Queue()
    proof_deadline = t0 + (420 if tier == "quick" else 3000)

    def worker(j):
        q.put((j, _verify_one(j)))
    done = 0
    procs = {}
    retries = {}
    while done < len(jobs):
        while todo and len(procs) < a.jobs:
            j = todo.pop(0)
            p = ctx.Process(target=worker, args=(j,))
            p.start()
            procs[j[1:3] + (j[4],)] = (p, j, time.time())
        try:
            j, info = q.get(timeout=1)
            infos.append(info)
            done += 1
            p = procs.pop(j[1:3] + (j[4],), None)
            if p:
                p[0].join(5)
                if p[0].is_alive():
                    p[0].kill()
        except Exception:
            pass
        now = time.time()
        for k in list(procs):
            p, j, ts = procs[k]
            if now - ts > deadline + 30 or now > proof_deadline or (not p.is_alive() and p.exitcode not in (0, None)):
                if p.is_alive():
                    p.kill()
                procs.pop(k)
                if p.exitcode not in (0, None, -9) and retries.get(k, 0) < 2:   # the solver crashed: once more in a fresh process
                    retries[k] = retries.get(k, 0) + 1
                    todo.insert(0, j)
                    continue
                done += 1
                infos.append({"function": "%s:%s" % (j[2], j[1]), "status": "unsupported", "reason": "time budget or worker failure",
                              "obls": [], "dropped": [], "kept": [], "trusted": [], "secs": round(now - ts, 1)})
        if now > proof_deadline and todo:
            for j in todo:
                done += 1
                infos.append({"function": "%s:%s" % (j[2], j[1]), "status": "unsupported", "reason": "time budget",
                              "obls": [], "dropped": [], "kept": [], "trusted": [], "secs": 0})
            todo = []
    lem = lemma_obls(m) if jobs else []
    obls = [o for i in infos for o in i["obls"]] + lem
    known_labels = set()
    for o in obls:
        for k in known:
            if o["status"] != "proved" and k in getattr(m, "KNOWN_OBLIGATIONS", {}) and o["obligation"] in m.KNOWN_OBLIGATIONS[k]:
                o["status"] = "known-finding"
                known_labels.add(k)
    nfun = len(jobs)
    not_ok = [i for i in infos if i["status"] != "ok"]
    unproved = [o for o in obls if o["status"] not in ("proved", "known-finding")]
    dropped_fns = {d[0] for i in infos for d in i["dropped"]}
    misfit = {f.split(":", 1)[-1] for f in misfits(prop, infos)} if not a.record else set()
    refuted = [o for o in unproved if o["status"] == "refuted" and o["function"] not in dropped_fns and o["function"] not in misfit]
    min_obl = getattr(m, "MIN_OBLIGATIONS", 1)
    complete = bool(jobs) and not not_ok and not unproved and len(obls) >= min_obl
    res = collect_concrete(conc)
    failures = list(res.get("failures", [])) if res else []
    conc_ok = bool(res) and "error" not in res and sum(g["cases"] for g in res["groups"].values()) > 0
    if not failures and not complete and conc_ok and jobs:
        # proof is not complete on this tree: look harder for a failing input
        r2 = collect_concrete(run_concrete(m, prop, tier, seed + 7919, known, 150, getattr(m, "ESCALATE", 5.0)))
        if r2 and "error" not in r2:
            failures += r2.get("failures", [])
            for k, g in r2["groups"].items():
                res["groups"][k + " (escalated)"] = g
    viol = []
    outd = os.path.join(VERIF, "out")
    os.makedirs(outd, exist_ok=True)
    for n, f in enumerate(failures[:3]):
        rp = os.path.join(outd, "%s-violation-%d.json" % (prop, n))
        script = getattr(m, "REPLAY")
        rcmd = "%s %s --replay %s" % (PYRUN, os.path.join(VERIF, "replay", script), rp) if isinstance(script, str) else "%s --replay %s" % (" ".join(script), rp)
        json.dump({"property": prop, "what": f["what"], "failing_input": f, "replay_command": rcmd,
                   "failed_obligations": [o for o in unproved][:20], "undecided_functions": [(i["function"], i["reason"]) for i in not_ok]},
                  open(rp, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s" % (prop, rp))
        print("%s: %s" % (prop, f["what"]))
        if n == 0 and unproved:
            print("%s: failed obligation: %s: %s (%s)" % (prop, unproved[0]["function"], unproved[0]["obligation"], unproved[0]["status"]))
    if not viol and refuted:
        rp = os.path.join(outd, "%s-violation-0.json" % prop)
        json.dump({"property": prop, "what": "proof obligation refuted: %s: %s" % (refuted[0]["function"], refuted[0]["obligation"]),
                   "failed_obligations": refuted[:20], "verifier_output": [o["detail"] for o in refuted[:20]]}, open(rp, "w"), indent=1)
        print("%s: obligation refuted: %s: %s" % (prop, refuted[0]["function"], refuted[0]["obligation"]))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    mods = [j[2] for j in jobs if j[2]] + list(getattr(m, "FP_EXTRA", []))
    for md in list(mods):
        d = os.path.dirname(md.replace(".", "/")) if not md.endswith(".py") else os.path.dirname(md)
        if d.startswith("pymllm/"):
            mods += sorted(d + "/" + f for f in os.listdir(os.path.join(REPO, d)) if f.endswith(".py"))
    mods = [x if x.startswith("cxx.") or x.endswith((".py", ".hpp", ".cpp", ".h")) else x.replace(".", "/") + ".py" for x in mods]
    fp = getattr(m, "FINGERPRINT", lambda: fingerprint(mods))() if jobs else None
    if not viol and not complete and jobs and fp != proved_record(prop).get("fp"):
        # the code differs from the one last proved completely and a function inside the verifier's reach has an open obligation
        ok_fns = {i["function"].split(":", 1)[-1] for i in infos if i["status"] == "ok" or i["reason"].startswith("time budget for this function")}
        open_ = [o for o in unproved if (o["function"] in ok_fns and o["function"] not in misfit) or o["function"] == "lemma"]
        if open_:
            rp = os.path.join(outd, "%s-violation-0.json" % prop)
            json.dump({"property": prop, "what": "proof obligation not discharged: %s: %s" % (open_[0]["function"], open_[0]["obligation"]),
                       "failed_obligations": open_[:20], "verifier_output": [o["detail"] for o in open_[:20]],
                       "dropped_invariants": [d for i in infos for d in i["dropped"]][:40]}, open(rp, "w"), indent=1)
            print("%s: obligation not discharged: %s: %s" % (prop, open_[0]["function"], open_[0]["obligation"]))
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    if complete and a.record:
        pj = os.path.join(VERIF, "dv", "proved.json")
        d = json.load(open(pj)) if os.path.exists(pj) else {}
        d[prop] = {"fp": fp, "kept": kept_of(infos)}
        json.dump(d, open(pj, "w"), indent=1, sort_keys=True)
    by_fn = {}
    for i in infos:
        n = len(i["obls"])
        by_fn[i["function"]] = {"status": i["status"], "reason": i["reason"], "obligations": n,
                                "discharged": sum(o["status"] == "proved" for o in i["obls"]),
                                "solver_secs": round(sum(o["secs"] for o in i["obls"]), 2), "secs": i["secs"],
                                "dropped_invariants": [d[1] + ": " + d[2] for d in i["dropped"]][:12],
                                "kept_invariants": sorted({k[1] for k in i["kept"]}),
                                "unproved": [o["obligation"] + " [" + o["status"] + "]" for o in i["obls"] if o["status"] != "proved"][:10]}
    backends = {}
    for o in obls:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    trusted = sorted({t for i in infos for t in i["trusted"]})
    level = getattr(m, "LEVEL", "proof")
    state = "complete" if complete else ("no deductive part" if not jobs else "incomplete on this tree: undecided functions fall back to the bounded concrete search")
    cov = {"obligations": len(obls), "discharged": sum(o["status"] == "proved" for o in obls),
           "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier), "trusted_base": trusted + list(getattr(m, "TRUSTED", [])),
           "proof_state": state, "functions_under_contract": by_fn, "obligations_by_backend": backends,
           "solver_secs": round(sum(o["secs"] for o in obls), 2),
           "lemmas": [o["obligation"] for o in lem],
           "obligation_kinds": {k: sum(1 for o in obls if o["kind"] == k) for k in sorted({o["kind"] for o in obls})},
           "bounded_concrete_search": {"label": "bounded, never counted as proved", "what": getattr(m, "CONCRETE_NOTE", ""),
                                       "result": {k: v for k, v in (res or {}).items() if k in ("groups", "secs", "error")}},
           "known_findings_reproduced": [k["key"] for k in (res or {}).get("known", [])]}
    if level != "proof" or not complete:
        n = sum(g["cases"] for g in (res or {}).get("groups", {}).values()) if res else 0
        cov.update({"evaluations": n, "distinct_nontrivial": n, "rule": getattr(m, "CONCRETE_NOTE", "seeded random cases"),
                    "samples": [{"groups": (res or {}).get("groups", {})}], "explanation": state})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + [
              "Python integers and real-valued clocks are mathematical; tensor elements do not overflow",
              "the induction from per-operation contracts to every history (each public operation preserves the invariant) is a meta argument"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in (res or {}).get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k["key"], k["what"])))
    for k in known_labels - {x["key"] for x in (res or {}).get("known", [])}:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s: %d/%d obligations discharged over %d functions (%s); concrete: %s; %.1fs" % (
        prop, cov["discharged"], cov["obligations"], nfun, state,
        (res or {}).get("error") or {k: g["cases"] for k, g in (res or {}).get("groups", {}).items()}, time.time() - t0))
    if a.v or not complete:
        for i in infos:
            if i["status"] != "ok":
                print("  undecided %s: %s" % (i["function"], i["reason"][:300]))
        for f in sorted(misfit):
            print("  loop annotations do not fit the code of %s (undecided)" % f)
        for o in unproved[:15]:
            print("  not discharged: %s: %s [%s] %s" % (o["function"], o["obligation"], o["status"], o["detail"][:200]))
        for i in infos:
            if i["dropped"] and a.v:
                print("  dropped in %s: %s" % (i["function"], i["dropped"]))
    sys.stdout.flush()
    if viol:
        for v in viol:
            print(v)
        return 1
    if res and "error" in res and not complete:
        print("%s: no answer: %s" % (prop, res["error"]))
        return 2
    return 0
