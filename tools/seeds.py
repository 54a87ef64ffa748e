#!/usr/bin/env python3
"""Runs checks against the planted bugs, each in a scratch copy of /repo: seeds.py [id ...]; remembers the results."""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, "seeded")))
p = os.path.join(H, "tools", "seed_results.json")
R = json.load(open(p)) if os.path.exists(p) else {}
d = tempfile.mkdtemp(prefix="vf-seed-")
try:
    subprocess.run("cp -a /repo/. %s" % d, shell=True, check=True)
    for i in ids:
        subprocess.run("git checkout -q -- . && git apply %s/seeded/%s/patch.diff" % (H, i), shell=True, check=True, cwd=d)
        m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
        for c in [m["property"]]:
            o = subprocess.run(["python3", "check.py", c], cwd=H, env=dict(os.environ, VF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            l = [x for x in o.stdout.splitlines() if not x.startswith("VIOLATION")]
            r = 1 if o.returncode == 1 and re.search(r"^VIOLATION property=%s " % c, o.stdout, re.M) else 0
            R.setdefault(i, {})[c] = r
            print(i, c, "CAUGHT" if r else "missed (rc %d)" % o.returncode, (l or [""])[0][:200])
            sys.stdout.flush()
        json.dump(R, open(p, "w"), indent=1, sort_keys=True)
finally:
    shutil.rmtree(d)
