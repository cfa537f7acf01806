#!/usr/bin/env python3
"""Run checks against each planted change in a scratch copy: run.py [--all] [ids]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = [a for a in sys.argv[1:] if not a.startswith("--")]
allc = "--all" in sys.argv
S = "/verif/seeded"
ids = [a for a in args if os.path.exists(f"{S}/{a}")] or sorted(os.listdir(S))
def one(id):
    meta = json.load(open(f"{S}/{id}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="run_", dir="/tmp")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        subprocess.run(["git", "apply", f"{S}/{id}/patch.diff"], cwd=tmp + "/repo", check=True)
        out = []
        ps = ["C%02d" % i for i in range(1, 32) if i not in (26, 27)] if allc else [meta["property"]]
        for p in ps:
            r = subprocess.run(["python3", "-m", "sa.check", p, "quick"], cwd=os.environ.get("VERIF_DIR", "/verif"), stdout=-1, stderr=-1, text=True,
                               env=dict(os.environ, CVI_REPO=tmp + "/repo", CVI_EVIDENCE=tmp + "/ev", PYTHONDONTWRITEBYTECODE="1"))
            out.append((p, r.returncode, [l for l in r.stdout.splitlines() if l.strip()][-3:], r.stderr[-300:]))
        return id, meta["property"], out
    finally:
        shutil.rmtree(tmp)
with ThreadPoolExecutor(7) as ex:
    for id, p, out in ex.map(one, ids):
        hit = [q for q, rc, *_ in out if rc == 1]
        odd = [(q, rc) for q, rc, *_ in out if rc not in (0, 1)]
        print(("CAUGHT" if p in hit else "MISSED"), id, p, "also", [q for q in hit if q != p], odd or "")
        for q, rc, l, e in out:
            if q == p:
                for x in l: print("     ", x[:220])
                if rc not in (0, 1): print(e)
