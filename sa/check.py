"""Command line: python3 -m sa.check <property> [quick|thorough].

Exit 0: no violation found; exit 1 with a VIOLATION line: some obligation is violated.  Obligations that the
analysis cannot decide are reported as UNDECIDED (never as violations, never as held) in the evidence."""
import json
import multiprocessing as mp
import os
import sys
import time

sys.setrecursionlimit(20000)

from . import checks as C
from . import limit
from .spec import INDICES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("CVI_EVIDENCE") or os.path.join(VERIF, "evidence")

PER_CLASS = {"C10": C.check_C10, "C11": C.check_C11, "C12": C.check_C12, "C13": C.check_C13, "C14": C.check_C14,
             "C15": C.check_C15, "C16": C.check_C16, "C17": C.check_C17, "C18": C.check_C18}

METHOD = {}


def worker(args):
    f, a = args
    try:
        with limit.limit(limit.budget(660 if "thorough" not in a else 3000), limit.Over):
            return f(*a)
    except (Exception, limit.Over) as e:
        import traceback
        return dict(name=str(a), obligations=[C.ob(str(a), "analysis", "undecided", "analysis failed: %s: %s" % (type(e).__name__, e))], points=0, notes=[traceback.format_exc()[-2000:]],
                    errors={}, functions=[], scenarios={}, guards=0, onesided=0)


def value_worker(pid, name, tier, seed):
    return C.value_check(pid, name, tier, seed)


def run(pid, tier, seed):
    limit.END = time.time() + (800 if tier != "thorough" else 7200)
    if pid in INDICES:
        jobs = [(C.value_check, (pid, INDICES[pid], tier, seed))]
    elif pid in PER_CLASS:
        jobs = [(PER_CLASS[pid], (n, tier, seed)) for n in C.class_names()]
        jobs += C.extra_jobs(pid, tier, seed)
    else:
        from . import surface
        jobs = surface.jobs(pid, tier, seed)
    limit.memory(24 if len(jobs) == 1 else 5)
    if len(jobs) == 1:
        return [worker(jobs[0])]
    with mp.get_context("fork").Pool(min(8, len(jobs))) as pool:
        return pool.map(worker, jobs, chunksize=1)


def known(pid):
    """(kind, key) entries of the known-findings file for this property"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if not os.path.isdir(os.path.join(C.SRC, "cvi")):
        print("ERROR: %s does not exist: nothing to analyse" % os.path.join(C.SRC, "cvi"))
        return 2
    res = run(pid, tier, seed)
    obl = [o for r in res for o in r["obligations"]]
    bad = [o for o in obl if o["verdict"] == "violated"]
    und = [o for o in obl if o["verdict"] == "undecided"]
    good = [o for o in obl if o["verdict"] == "holds"]
    os.makedirs(EVID, exist_ok=True)
    kn = known(pid)
    listed = [b for b in bad if any(k.startswith("%s | %s" % (b["subject"], b["rule"])) for k in kn)]
    fresh = [b for b in bad if b not in listed]
    functions = sorted({f for r in res for f in r.get("functions", ())})
    points = sum(r.get("points", 0) for r in res)
    cov = {
        "explanation": "Static analysis of the source under %s (abstract interpretation into value terms; the code is not run). "
                       "Each obligation is one rule instance at one construct; %d obligations: %d hold, %d violated, %d undecided. %s"
                       % (C.SRC, len(obl), len(good), len(bad), len(und), C.TECH.get(pid, "")),
        "obligations": len(obl),
        "discharged": len(good),
        "undecided": len(und),
        "functions_analysed": len(functions),
        "functions": functions,
        "term_comparison_points": points,
        "guards_seen": sum(r.get("guards", 0) for r in res),
        "guards_one_sided": sum(r.get("onesided", 0) for r in res),
        "scenarios": {r["name"]: r.get("scenarios", {}) for r in res},
        "rules": sorted({o["rule"] for o in obl}),
        "samples": [{k: o[k] for k in ("subject", "rule", "verdict", "detail")} for o in (bad + und + good)[:40]],
        "undecided_list": [{k: o[k] for k in ("subject", "rule", "detail")} for o in und[:60]],
        "notes": [n for r in res for n in r.get("notes", [])][:40],
        "analysis_errors": {r["name"]: r["errors"] for r in res if r.get("errors")},
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": C.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d comparison points, %.1fs"
          % (pid, len(obl), len(good), len(und), len(bad), len(functions), points, time.time() - t0))
    for o in und[:12]:
        print("UNDECIDED %s | %s | %s" % (o["subject"], o["rule"], o["detail"]))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s | %s | %s" % (pid, o["subject"], o["rule"], o["detail"]))
    if fresh:
        rp = os.path.join(EVID, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
        for o in fresh[:10]:
            print("  %s | rule: %s | %s | at %s" % (o["subject"], o["rule"], o["detail"], o["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
