"""python3-vt tools/calib.py Cxx [tier]: run the check in calibration mode and write golden/Cxx.json"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
d = V + "/.work/calib/" + pid
shutil.rmtree(d, ignore_errors=True)
for t in sys.argv[2:] or ["quick"]:
    subprocess.call(["python3-vt", "checks/run.py", pid, "--tier", t], cwd=V, env=dict(os.environ, VP_CALIBRATE="1", VP_SURVEY="1"))
out = {k: json.load(open(d + "/" + k)) for k in sorted(os.listdir(d))}
os.makedirs(V + "/golden", exist_ok=True)
with open(V + "/golden/%s.json" % pid, "w") as f:
    f.write("{\n" + ",\n".join('"%s":%s' % (k, json.dumps(v, separators=(",", ":"))) for k, v in out.items()) + "\n}\n")
print(len(out), "bounds")
