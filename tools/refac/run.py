#!/usr/bin/env python3
"""Run every check against each behaviour-preserving edit in a scratch copy: run.py [--p=C01,C02] [ids]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
args = [a for a in sys.argv[1:] if not a.startswith("--")]
P = [a[4:].split(",") for a in sys.argv[1:] if a.startswith("--p=")]
P = P[0] if P else ["C%02d" % i for i in range(1, 32) if i not in (26, 27)]
def one(x):
    id, edits = x
    tmp = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    try:
        r = tmp + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if old not in s:
                return id, "NO MATCH %s %r" % (f, old[:50]), []
            open(r + "/" + f, "w").write(s.replace(old, new))
        a = subprocess.run([sys.executable, HERE + "/same.py", "/repo/src", r + "/src"], stdout=-1, text=True)
        if a.returncode:
            return id, a.stdout.strip()[:600], []
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=r, stdout=-1, stderr=-1, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if t.returncode:
            return id, "TESTS FAIL", []
        out = []
        for p in P:
            q = subprocess.run(["python3", "-m", "sa.check", p, "quick"], cwd=os.environ.get("VERIF_DIR", "/verif"), stdout=-1, stderr=-1, text=True,
                               env=dict(os.environ, CVI_REPO=r, CVI_EVIDENCE=tmp + "/ev", PYTHONDONTWRITEBYTECODE="1"))
            out.append((p, q.returncode, q.stdout.splitlines(), q.stderr[-500:]))
        return id, None, out
    finally:
        shutil.rmtree(tmp)
todo = [x for x in specs.OUT if not args or x[0] in args]
if "--two" in sys.argv:
    ids2 = [x[0] for x in specs.OUT].index("xb-argmin")
    todo = specs.OUT[ids2:]
if "--three" in sys.argv:
    todo = specs.OUT[[x[0] for x in specs.OUT].index("ch-module-helper"):]
if "--four" in sys.argv:
    todo = specs.OUT[[x[0] for x in specs.OUT].index("batch-sorted-split"):]
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for id, err, out in ex.map(one, todo):
        if err:
            print("##", id, err, flush=True); continue
        bad = [p for p, rc, *_ in out if rc != 0]
        und = {p: sum(l.startswith("UNDECIDED") for l in ls) for p, rc, ls, e in out}
        und = {p: n for p, n in und.items() if n}
        print("ALARM" if bad else "quiet", id, bad or "", "undecided", und or 0, flush=True)
        for p, rc, ls, e in out:
            if rc:
                for l in ls[-4:]: print("      ", p, rc, l[:260])
                if rc not in (0, 1): print(e)
            elif und.get(p) and "--v" in sys.argv:
                for l in [l for l in ls if l.startswith("UNDECIDED")][:3]: print("      ", p, l[:240])
