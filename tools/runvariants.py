"""Behaviour-preserving (good) and breaking (bad) edits of /repo, run against the checks in scratch copies.
usage: runvariants.py [-a] [files or names...]   (-a: every check on the good ones)"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/checks/c*.py"))


def load(p):
    sp = importlib.util.spec_from_file_location("v", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.VARIANTS


def one(v, every):
    name, prop, good, edits = v
    d = tempfile.mkdtemp(prefix="var_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for f, old, new in edits:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            if s.count(old) < 1:
                return "%-40s EDIT DOES NOT APPLY: %s" % (name, old[:60])
            open(p, "w").write(s.replace(old, new))
            compile(open(p).read(), p, "exec")
        env = dict(os.environ, VP_REPO=d + "/repo", VP_EVIDENCE=d + "/ev")
        res = []
        for c in (ALL if every and good else prop.split(",")):
            r = subprocess.run(["python3-vt", "run_check.py", c], cwd=VERIF, env=env, capture_output=True, text=True)
            o = r.stdout + r.stderr
            und = o.count("  undecided:")
            if good and r.returncode != 0:
                res.append("%s ALARM(%d) %s" % (c, r.returncode, " ".join(l.strip()[:120] for l in o.splitlines() if "violated:" in l or "ERROR" in l or "Error" in l)[:300]))
            elif good and und:
                res.append("%s undecided %d: %s" % (c, und, [l for l in o.splitlines() if "  undecided:" in l][0][:200]))
            elif not good and r.returncode != 1:
                res.append("%s MISSED(%d) %s" % (c, r.returncode, " ".join(l.strip()[:160] for l in o.splitlines() if "undecided" in l)[:300]))
        return "%-40s %s" % (name, "; ".join(res) or "ok")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "-a"]
    vs = []
    for p in sorted(glob.glob(HERE + "/variants/*.py")):
        b = os.path.basename(p)[:-3]
        for v in load(p):
            if not args or b in args or v[0] in args:
                vs.append(v)
    with ThreadPoolExecutor(8) as ex:
        for l in ex.map(lambda v: one(v, "-a" in sys.argv), vs):
            print(l)
