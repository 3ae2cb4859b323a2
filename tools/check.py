#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken (replayed on the real code); other: no verdict."""
import hashlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, Inconclusive
import replaylib as R
import confirm
import plans

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(known, prop, job, f):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if all(str(f.get(a, "")).find(str(b)) >= 0 for a, b in k.get("finding", {}).items()) and all(w in job.split() for w in k.get("job", [])):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    plan = plans.PLANS[prop]
    budget = plan.budget(tier)
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": plan.level, "coverage": {}, "assumptions": plan.assumptions, "wall_s": 0, "violations": 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    rc = 2
    try:
        ir, eng = vlib.build_both(plan.parts)
        tb = time.time() - t0
        jobs = plan.jobs(tier, SEED)
        twins = plan.twins()
        pool = vlib.Pool(eng, ir, plan.nproc(tier))
        every = [t[0] for t in twins] + jobs
        known = load_known()
        nt = len(twins)

        def finding(r):
            return r.get("finding") or {"kind": r.get("kind", ""), "msg": r.get("msg", ""), "x": [], "ctx": [], "out": -1, "tol": 0, "dev": 0}

        def decisive(i, r):
            return i >= nt and r["status"] == "violation" and not known_match(known, prop, every[i], finding(r))
        allres, real, unconf, tried, judged = None, [], [], 0, set()
        limit = t0 + (840 if tier == "quick" else budget + 3600)
        while True:
            allres = pool.run(every, deadline=t0 + budget, weight=plan.weight, decisive=decisive, hard=limit - 100, res=allres)
            cand = [(i, every[i], finding(r)) for i, r in enumerate(allres) if r and decisive(i, r) and i not in judged]
            cand.sort(key=lambda c: plan.simplicity(c[1], c[2]))
            for i, j, f in cand:
                judged.add(i)
                if real or tried >= 6 or time.time() > limit - 60:
                    continue
                tried += 1
                c = confirm.confirm(prop, j, f)
                (real if c["confirmed"] else unconf).append((j, f, c))
            if real or not cand or tried >= 6 or time.time() > t0 + budget or not any(r["status"] == "skipped" for r in allres):
                break
        tw, res = allres[:nt], allres[nt:]
        viol, errs, skipped = [], [], 0
        agg = {"queries": 0, "atoms": 0, "outputs": 0, "coefs": 0, "paths": 0, "instr": 0, "solver_s": 0.0, "obligations": 0}
        funcs, maxratio = set(), 0.0
        done = 0
        for j, r in zip(jobs, res):
            if r["status"] == "skipped":
                skipped += 1
                continue
            if r["status"] == "error":
                errs.append((j, r.get("msg", "")))
                continue
            done += 1
            for k in agg:
                agg[k] += r.get(k, 0)
            if isinstance(r.get("maxratio"), (int, float)):
                maxratio = max(maxratio, r["maxratio"])
            funcs.update(r.get("funcs", []))
            if r["status"] == "violation":
                viol.append((j, finding(r)))
        for (line, expect), r in zip(twins, tw):
            if r["status"] == "skipped":
                continue
            if r["status"] != expect:
                errs.append((line, "vacuity witness: expected %s, got %s %s" % (expect, r["status"], r.get("msg", ""))))
        names = vlib.demangle(sorted(funcs))
        cov = {"explanation": plan.explanation, "functions_encoded": len(names), "functions": names[:400], "bounds": plan.bounds(tier),
               "outside": plan.outside, "jobs": len(jobs), "jobs_decided": done, "jobs_skipped_for_time": skipped,
               "samples": jobs[:3] + jobs[len(jobs) // 2:len(jobs) // 2 + 2] + jobs[-2:], "queries": int(agg["queries"]),
               "assertions": int(agg["atoms"] + agg["obligations"]), "paths": int(agg["paths"]), "ir_instructions": int(agg["instr"]),
               "outputs_decided": int(agg["outputs"]), "coefficients_compared": int(agg["coefs"]),
               "solver_s": round(agg["solver_s"], 2), "max_deviation_over_tolerance": maxratio,
               "vacuity_witnesses": len(twins), "build_s": round(tb, 1)}
        json.dump([(j, r) for j, r in zip(jobs, res)], open(os.path.join(vlib.CACHE, "last-%s.json" % prop), "w"))
        cov["samples"] = [s for s in cov["samples"] if s]
        ev["coverage"] = cov
        # report
        seen = set()
        for j, f in viol:
            k = known_match(known, prop, j, f)
            if k and k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        ev["violations"] = len(real)
        cov["violations_found_by_solver"] = len(viol)
        if real:
            j, f, c = real[0]
            rec = {"property": prop, "job": j, "finding": f, "replay": c}
            p = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha1((j + f.get("kind", "")).encode()).hexdigest()[:10]))
            json.dump(rec, open(p, "w"), indent=1)
            print("job: %s\nfinding: %s: %s (output %s)\nreplay: %s" % (j, f.get("kind"), f.get("msg"), f.get("out"), c.get("note", "")))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
        else:
            bad = [j for j, f in viol if not known_match(known, prop, j, f)]
            twbad = [(l, m) for l, m in errs if m.startswith("vacuity witness") and " got error" not in m]
            undecided = len(errs) + len(bad)
            cov["undecided"] = [j for j, _ in errs][:20] + bad[:20]
            cov["jobs_undecided"] = undecided
            for j, f, c in unconf[:3]:
                print("UNDECIDED (the solver's counterexample was not reproduced on the real code): %s -> %s: %s; %s" % (j, f.get("kind"), f.get("msg"), c.get("note", "")))
            for j, m in errs[:5]:
                print("UNDECIDED: %s: %s" % (j, m))
            held = done - len(bad)
            # what could not be decided is not part of what was explored; with too much of it, or with a failing witness, there is no answer
            if not held or twbad or undecided * 4 > held:
                print("NO ANSWER: %d jobs undecided, %d decided" % (undecided, held))
                rc = 2
            else:
                print("held: %s %s, %d jobs decided, %d undecided (%d skipped for time), %d solver queries, %.1f s" % (prop, tier, held, undecided, skipped, agg["queries"], time.time() - t0))
                rc = 0
    except Inconclusive as e:
        print("NO ANSWER: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    write_ev()
    sys.exit(rc)


if __name__ == "__main__":
    main()
