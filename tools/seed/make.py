#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from bugs.py after confirming each in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs, bugs2, bugs3, bugs4
only = set(sys.argv[1:])
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$here" PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
for id, prop, edits, demo, needs, breaks in bugs.OUT:
    if only and id not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = tmp + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        d = tmp + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write('"""Demonstration for %s."""\nimport ref\n' % prop + demo.lstrip("\n"))
        shutil.copy(HERE + "/ref.py", d)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=-1, stderr=-1, text=True)
        if a.returncode:
            print(id, "DEMO FAILS UNPATCHED", a.stderr[-600:]); continue
        bad = False
        for f, old, new in edits:
            p = r + "/" + f
            s = open(p).read()
            if s.count(old) < 1:
                print(id, "NO MATCH", f, repr(old[:60])); bad = True; break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad:
            continue
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=-1, text=True).stdout
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=-1, stderr=-1, text=True)
        if not a.returncode:
            print(id, "DEMO PASSES PATCHED"); continue
        why = a.stderr.strip().splitlines()[-1][:100] if a.stderr else ""
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=r, stdout=-1, stderr=-1, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if t.returncode:
            print(id, "TESTS FAIL", t.stdout[-400:]); continue
        o = "/verif/seeded/" + id
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(d + "/" + n, o)
        if "ref." in demo:
            shutil.copy(d + "/ref.py", o)
        else:
            s = open(o + "/demo.py").read().replace("import ref\n", "")
            open(o + "/demo.py", "w").write(s)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(o + "/meta.json", "w"), indent=1)
        print(id, "OK", why)
    finally:
        shutil.rmtree(tmp)
