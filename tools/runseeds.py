"""runseeds.py [-a] [ids...]: applies each seeded patch to a scratch copy and runs its property's check (-a: all checks) on it"""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
al = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
def one(i):
    d = V + "/seeded/" + i
    w = tempfile.mkdtemp(prefix="rs"); r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, capture_output=True, text=True)
    out = []
    if a.returncode: out.append("DOES NOT APPLY " + a.stderr[:200])
    props = [json.load(open(d + "/meta.json"))["property"]]
    if al: props = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(V + "/checks/c*.py"))
    for p in props:
        e = dict(os.environ, VP_REPO=r, VP_EVIDENCE=w)
        x = subprocess.run(["python3-vt", "run_check.py", p], cwd=V, env=e, capture_output=True, text=True)
        if not al or x.returncode:
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s rc=%d viol=%d %s" % (p, x.returncode, len(v), (x.stdout + x.stderr)[-200:] if x.returncode not in (0, 1) else ""))
    shutil.rmtree(w)
    print(i, " | ".join(out) or "-- no check alarms", flush=True)
with ThreadPoolExecutor(7) as ex:
    list(ex.map(one, ids))
