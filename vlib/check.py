"""Common driver of the checks: builds, enumerates every case of the bounded space, judges each execution, re-runs a
failing case before reporting it, and writes the evidence file."""
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback, re
import numpy as np
from . import build, sim

VERIF = build.VERIF


class Ctx:
    """Handed to run(case, ctx) in a worker."""
    def __init__(s, tree, exes, tier):
        s.tree, s.exes, s.tier = tree, exes, tier
        s.sched = tree.dir + "/sched" if tree else None
        s.reset()

    def reset(s):
        s.states, s.transitions, s.traces, s.viol, s.notes = set(), 0, 0, [], {}

    def state(s, *arrs):
        h = hashlib.blake2b(digest_size=8)
        for a in arrs:
            if a is None:
                continue
            h.update(np.ascontiguousarray(a).tobytes() if isinstance(a, np.ndarray) else repr(a).encode())
        s.states.add(h.digest())

    def snap(s, sn):
        """register every grid state of a snapshot"""
        for g in sn.grids:
            s.state(g.U, *(g.B or []), g.Phi, g.P)

    def step(s, n=1):
        s.transitions += n

    def trace(s, n=1):
        s.traces += n

    def fail(s, sig, msg):
        """sig: short stable identity of the failing call site/input (for known findings)."""
        s.viol.append((sig, msg))

    def case(s):
        return sim.Case(s.tree.dir)

    def count(s, k, n=1):
        s.notes[k] = s.notes.get(k, 0) + n


_G = {}


def _work(case):
    ctx, mod = _G["ctx"], _G["mod"]
    ctx.reset()
    try:
        mod.run(case, ctx)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        ctx.fail("exception", "%s: %s @ %s" % (type(e).__name__, e, " | ".join(x.strip() for x in tb[-4:-1])))
    return case, ctx.viol, list(ctx.states), ctx.transitions, ctx.traces, ctx.notes


def known():
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def build_sched(tree):
    build.run(["gcc", "-O1", "-w", "-o", tree.dir + "/sched", build.CSRC + "/mmpi/sched.c"])


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--replay":
            replay = argv[i + 1]
    os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    if replay:
        rp = json.load(open(replay))
        tier = rp.get("tier", tier)
        cases = [rp["case"]]
    else:
        cases = list(mod.cases(tier))
    if os.environ.get("VP_ONLY") and os.environ.get("VP_SURVEY"):      # developer's subset
        cases = [c for c in cases if eval(os.environ["VP_ONLY"], {"c": c})]
    try:
        tree = build.Tree()
        build_sched(tree)
        specs = mod.specs(tier)
        used = {c["cfg"] for c in cases if "cfg" in c} | {x for c in cases for x in c.get("cfgs", ())}
        if getattr(mod, "LAZY", True):
            specs = {k: v for k, v in specs.items() if k in used or v.get("always")}
        for v in specs.values():
            v.pop("always", None)
        exes = tree.build_all(specs)
        if hasattr(mod, "prepare"):
            mod.prepare(tree, exes, tier)
    except build.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    t1 = time.time()
    if tier == "quick":
        build.prune_cache()
    _G["mod"], _G["ctx"] = mod, Ctx(tree, exes, tier)
    states, trans, traces, notes, bad, ncase = set(), 0, 0, {}, [], 0
    nproc = getattr(mod, "NPROC", build.NCPU)
    limit = float(os.environ.get("VP_LIMIT", "780" if tier == "quick" else "1e9"))
    done_all = True
    samples = []
    # deterministic round-robin order: every configuration is met early
    if not replay and getattr(mod, "SHUFFLE", True):
        cases = [c for _, c in sorted(enumerate(cases), key=lambda x: hashlib.md5(json.dumps(x[1], sort_keys=True).encode()).digest())]
    ctxm = mp.get_context("fork")
    kf = [k for k in known() if k[0] == pid]
    ksig = {k[1] for k in kf}
    nreal = 0
    with ctxm.Pool(nproc) as pool:
        chunk = max(1, min(8, len(cases) // (nproc * 8)))
        for case, viol, st, tr, tc, nt in pool.imap_unordered(_work, cases, chunksize=chunk):
            ncase += 1
            states.update(st)
            trans += tr
            traces += tc
            for k, v in nt.items():
                notes[k] = notes.get(k, 0) + v
            if len(samples) < 4 and (ncase % max(1, len(cases) // 4) == 1 or len(cases) < 8):
                samples.append(case)
            if viol:
                bad.append((case, viol))
                if any(sg not in ksig for sg, _ in viol):
                    nreal += 1
            if os.environ.get("VP_SURVEY"):
                if viol:
                    for sg, ms in viol:
                        print("SURVEY", json.dumps({k: v for k, v in case.items()}), sg, ms[:160])
                continue
            if nreal >= 12 or time.time() - t0 > limit:
                done_all = False
                pool.terminate()
                break
    if os.environ.get("VP_SURVEY"):
        print("%d cases, %d bad, %.1fs %s" % (ncase, len(bad), time.time() - t0, notes))
        return 3
    # confirm by re-running
    hits, real = {}, []
    bad.sort(key=lambda b: json.dumps(b[0], sort_keys=True))
    for case, viol in bad:
        if all(sg in hits for sg, _ in viol):
            continue
        confirmed = []
        for _ in range(3):
            r = _work(case)
            if r[1]:
                confirmed = r[1]
                break
        if not confirmed:
            notes["unconfirmed"] = notes.get("unconfirmed", 0) + 1
            print("note: not reproduced, not reported: %s: %s" % (json.dumps(case), viol[0][1][:300]))
            continue
        un = []
        for sig, msg in confirmed:
            k = [x for x in kf if x[1] == sig]
            if k:
                hits[sig] = k[0]
            else:
                un.append((sig, msg))
        if un:
            real.append((case, un))
    for sig, k in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    rc = 0
    if real:
        rc = 1
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        for q, (case, un) in enumerate(real[:5]):
            f = "%s/evidence/replay/%s-%d.json" % (VERIF, pid, q)
            json.dump(dict(property=pid, tier=tier, case=case, violations=[m for _, m in un],
                           how="python3-vt checks/run.py %s --replay %s" % (pid, f)), open(f, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, f))
            for sig, m in un[:3]:
                print("   [%s] %s\n   case %s" % (sig, m[:600], json.dumps(case)[:600]))
    t2 = time.time()
    if not replay:
        ev = dict(property=pid, tier="thorough" if tier == "thorough" else "quick", seed=int(os.environ.get("VERIF_SEED", "1")),
                  level="model_checking",
                  coverage=dict(states=len(states), transitions=trans, traces_validated_against_impl=traces,
                                samples=samples, cases=ncase, cases_in_space=len(cases), configurations=len(exes),
                                exhaustive=bool(done_all and ncase == len(cases)), bounds=getattr(mod, "BOUNDS", ""),
                                notes=notes, build_s=round(t1 - t0, 2)),
                  assumptions=list(getattr(mod, "ASSUME", [])), wall_s=round(t2 - t0, 2), violations=len(real))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.tmp" % pid
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % pid)
        if not done_all and not real:
            print("property %s: stopped by time limit after %d of %d cases" % (pid, ncase, len(cases)))
    print("%s %s: %d/%d cases, %d configurations, %d states, %d transitions, %d executions judged, build %.1fs, total %.1fs%s"
          % (pid, tier, ncase, len(cases), len(exes), len(states), trans, traces, t1 - t0, t2 - t0,
             " " + json.dumps(notes) if notes else ""))
    return rc
