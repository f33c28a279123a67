"""Makes /verif/seeded/<id>/ from tools/bugs.py: python3-vt tools/seed.py make [ids] | demo [ids] | catch [ids] | patchall"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from tools.bugs import BUGS
DJ = V + "/tools/demos.json"
DEMOS = json.load(open(DJ)) if os.path.exists(DJ) else {}

DEMO_SH = """#!/bin/bash
# run with cwd = the tree to demonstrate on
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/lib"
cp -r "$D/lib/." "$W/lib/"
export VP_REPO=$(pwd) PYTHONDONTWRITEBYTECODE=1
cd "$W/lib" && python3-vt demo.py
"""
DEMO_PY = '''"""Runs the given situations on the tree VP_REPO and judges what the code did."""
import importlib, json, sys
from vlib import build, check
D = json.load(open("demo.json"))
tree = build.Tree()
check.build_sched(tree)
bad = 0
for pid, case in D:
    mod = importlib.import_module("checks." + pid.lower())
    sp = mod.specs("quick")
    need = [x for x in [case.get("cfg")] + list(case.get("cfgs", ())) if x]
    sp = {k: dict(v) for k, v in sp.items() if k in need or v.get("always")}
    for v in sp.values():
        v.pop("always", None)
    exes = tree.build_all(sp)
    if hasattr(mod, "prepare"):
        mod.prepare(tree, exes, "quick")
    ctx = check.Ctx(tree, exes, "quick")
    mod.run(case, ctx)
    for sig, msg in ctx.viol:
        print("FAILS [%s] %s: %s" % (sig, json.dumps(case), msg))
        bad = 1
print("demonstration:", "wrong behaviour seen" if bad else "behaviour is right")
sys.exit(bad)
'''


def edited(b, root):
    """apply the edits of bug b below root"""
    for e in b["edits"]:
        fn, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = root + "/" + fn
        s = open(p, encoding="latin-1").read()
        c = s.count(old)
        if c == 0 or (nth is None and c != 1):
            raise SystemExit("edit of %s matches %d times: %r" % (fn, c, old))
        i = -1
        for _ in range((nth or 0) + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w", encoding="latin-1").write(s)


def worktree():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (os.environ.get("VP_REPO", "/repo"), d), shell=True)
    subprocess.check_call("git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=d)
    return d


def make(ids):
    d = worktree()
    try:
        for i in ids:
            b = BUGS[i]
            edited(b, d)
            diff = subprocess.check_output(["git", "diff"], cwd=d)
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=d)
            o = V + "/seeded/" + i
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o + "/lib")
            open(o + "/patch.diff", "wb").write(diff)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
            open(o + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(o + "/demo.sh", 0o755)
            for s in ("vlib", "csrc", "checks"):
                shutil.copytree(V + "/" + s, o + "/lib/" + s, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
            dm = b["demo"] or DEMOS.get(i) or []
            used = {x[0].lower() for x in dm}
            for f in os.listdir(o + "/lib/checks"):
                if f.startswith("c") and f[:3] not in used and not f.startswith("common"):
                    os.remove(o + "/lib/checks/" + f)
            for u in used:
                g = "/golden/%s.json" % u.upper()
                if os.path.exists(V + g):
                    os.makedirs(o + "/lib/golden", exist_ok=True)
                    shutil.copy(V + g, o + "/lib" + g)
            open(o + "/lib/demo.py", "w").write(DEMO_PY)
            json.dump(dm, open(o + "/lib/demo.json", "w"))
    finally:
        shutil.rmtree(d)


def scratchrun(i, cmd, patch=True):
    d = worktree()
    try:
        if patch:
            edited(BUGS[i], d)
        return cmd(d)
    finally:
        shutil.rmtree(d)


def demo(ids):
    for i in ids:
        def go(d):
            p = subprocess.run(["bash", V + "/seeded/%s/demo.sh" % i], cwd=d, capture_output=True, text=True, env=dict(os.environ, VP_CACHE=V + "/.cache/obj"))
            return p.returncode, p.stdout[-300:] + p.stderr[-300:]
        a = scratchrun(i, go, False)
        b = scratchrun(i, go, True)
        print(i, "clean", a[0], "" if a[0] == 0 else a[1], "patched", b[0], "" if b[0] else "NOT SEEN", b[1][:250].replace("\n", " | "))
        sys.stdout.flush()


def catch(ids):
    for i in ids:
        pid = BUGS[i]["property"]
        def go(d):
            p = subprocess.run(["python3-vt", "checks/run.py", pid], cwd=V, capture_output=True, text=True, env=dict(os.environ, VP_REPO=d))
            return p.returncode, p.stdout
        r = scratchrun(i, go, True)
        if r[0] == 1 and i not in DEMOS and not BUGS[i]["demo"]:
            DEMOS[i] = [(pid, json.load(open(V + "/evidence/replay/%s-%d.json" % (pid, q)))["case"]) for q in range(2) if os.path.exists(V + "/evidence/replay/%s-%d.json" % (pid, q)) and ("replay/%s-%d.json" % (pid, q)) in r[1]]
            json.dump(DEMOS, open(DJ, "w"), indent=0)
        print(i, pid, "CAUGHT" if r[0] == 1 and "VIOLATION property=" + pid in r[1] else "MISSED rc=%d" % r[0], r[1].replace("\n", " | ")[:300])
        sys.stdout.flush()


def patchall(ids):
    """one tree with all patches, for the test suite"""
    for i in ids:
        subprocess.check_call(["git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % i])


if __name__ == "__main__":
    ids = sys.argv[2:] or list(BUGS)
    dict(make=make, demo=demo, catch=catch, patchall=patchall)[sys.argv[1]](ids)
