"""mkseed.py DEFS.py [id...]: builds /verif/seeded/<id>/ from definitions and confirms each one in scratch copies:
applies, stable tests pass, demo passes without and fails with the patch."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd, t=300):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
bad = 0
for s in D.SEEDS:
    if only and s["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(w, "repo")
    shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    msg = []
    for f, old, new in s["edits"]:
        p = os.path.join(r, f); t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            msg.append("edit matches %d times in %s: %r" % (t.count(old), f, old[:60]))
        open(p, "w", newline="").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git diff", shell=True, cwd=r, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.copy(os.path.join(V, "tools/seedkit/kit.py"), d)
    open(os.path.join(d, "demo.py"), "w").write("from kit import *\n" + s["demo"].strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$(cd "$(dirname "$0")" && pwd)" PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 python3-vt "$PYTHONPATH/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    x = sh("bash %s/demo.sh" % d, r)
    if x.returncode == 0:
        msg.append("demo passes with the patch")
    elif "-v" in os.environ.get("SEEDV", ""):
        print(x.stdout[-300:], x.stderr[-600:])
    else:
        print("   ", (x.stderr.strip().splitlines() or ["?"])[-1][:200])
    y = sh("git stash -q; bash %s/demo.sh" % d, r)
    if y.returncode != 0:
        msg.append("demo fails without the patch: " + (y.stderr or y.stdout)[-500:])
    z = sh("git stash pop -q; /opt/venv/bin/python -m pytest -q computing 2>&1 | tail -1", r)
    if "12 passed" not in z.stdout:
        msg.append("tests: " + z.stdout)
    shutil.rmtree(w)
    print(s["id"], "ok" if not msg else "BAD", *msg, flush=True)
    bad += bool(msg)
sys.exit(bad)
