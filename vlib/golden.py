"""Accuracy bounds per case, calibrated once (VP_CALIBRATE=1 writes them to .work/calib, tools/calib.py merges them into golden/<id>.json)."""
import hashlib, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_m = {}


def key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def bounds(pid, case):
    """-> recorded list of errors for this case, or None"""
    if pid not in _m:
        try:
            _m[pid] = json.load(open(VERIF + "/golden/%s.json" % pid))
        except OSError:
            _m[pid] = {}
    return _m[pid].get(key(case))


def calibrating():
    return bool(os.environ.get("VP_CALIBRATE"))


def record(pid, case, errs):
    d = VERIF + "/.work/calib/" + pid
    os.makedirs(d, exist_ok=True)
    with open(d + "/" + key(case), "w") as f:
        json.dump([float("%.4g" % e) for e in errs], f)
