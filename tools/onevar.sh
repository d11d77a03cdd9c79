#!/bin/bash
# onevar.sh NAME CHECK: run one check verbosely on one variant
python3 - "$1" <<'P'
import sys, glob, importlib.util, os, subprocess
subprocess.run("rm -rf /tmp/wt && cp -a /repo /tmp/wt", shell=True, check=True)
for p in glob.glob("/verif/tools/variants/*.py"):
    sp = importlib.util.spec_from_file_location("v", p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for n, c, g, e in m.VARIANTS:
        if n == sys.argv[1]:
            for f, o, w in e:
                q = "/tmp/wt/" + f; s = open(q).read(); open(q, "w").write(s.replace(o, w))
P
VP_REPO=/tmp/wt VP_EVIDENCE=/tmp/ev python3-vt /verif/run_check.py $2 -v 2>&1 | cut -c1-${3:-1500} | head -${4:-30}
