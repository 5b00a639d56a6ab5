#!/usr/bin/env python3
"""Makes and tries planted bugs in a scratch worktree: seedlab.py make ID.. | try ID.. [-p PROP]   (specs: tools/seedspecs.py)"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
W = "/tmp/seedwt"
BASE = os.environ.get("SEED_BASE", "/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tree():
    if os.path.exists(W):
        sh("git -C %s worktree remove --force %s" % (BASE, W))
        shutil.rmtree(W, ignore_errors=True)
    r = sh("git -C %s worktree add --detach %s HEAD" % (BASE, W))
    assert r.returncode == 0, r.stderr


def clean():
    sh("git -C %s checkout -- ." % W)


def done():
    sh("git -C %s worktree remove --force %s" % (BASE, W))
    shutil.rmtree(W, ignore_errors=True)
    sh("git -C %s worktree prune" % BASE)


def demo(d):
    env = dict(os.environ, OMP_NUM_THREADS="2")
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, env=env, capture_output=True, text=True, timeout=300)


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or '#!/bin/bash\nexport PYTHONPATH="$PWD:$PWD/mllm-kernel" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=\nexec /opt/mllm-venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    if s.get("demo"):
        open(os.path.join(d, "demo.py"), "w").write("import signal\nsignal.alarm(120)\n" + s["demo"].lstrip("\n"))
    r = demo(d)
    if r.returncode != 0:
        print(s["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-1500:])
        return False
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % W).stdout)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = demo(d)
    ok = r.returncode != 0
    print(s["id"], "demo with the change: exit", r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:] if ok else "NOT DETECTED BY THE DEMO")
    clean()
    return ok


def attempt(i, prop=None):
    d = os.path.join(V, "seeded", i)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    clean()
    r = sh("git -C %s apply %s/patch.diff" % (W, d))
    assert r.returncode == 0, r.stderr
    t = time.time()
    r = sh("cd %s && DV_REPO=%s python3-vt check.py %s --tier quick" % (V, W, prop))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "exit", r.returncode, "%.0fs" % (time.time() - t), "CAUGHT" if v else "MISSED", (v or [""])[0][:120])
    for l in r.stdout.splitlines()[:6 if v else 14]:
        print("     ", l[:200])
    clean()


if __name__ == "__main__":
    from seedspecs import SPECS
    by = {s["id"]: s for s in SPECS}
    cmd, ids = sys.argv[1], sys.argv[2:]
    tree()
    try:
        for i in ids or by:
            if cmd in ("make", "both"):
                if not make(by[i]):
                    continue
            if cmd in ("try", "both"):
                attempt(i)
    finally:
        done()
