#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property of /repo's current working tree.

exit 0  every verification condition was discharged by an SMT solver (or Kani)
exit 1  a counterexample was found by the solver and reproduced natively; VIOLATION line
        Conditions on which the solvers gave up within the time limit, or whose counterexample the real code
        does not reproduce, are printed as UNDECIDED, listed in the evidence and not claimed; there are none on the
        tree this was written for.
exit 2  no answer at all (build error, nothing discharged)"""
import json, os, subprocess, sys, time, re, concurrent.futures as cf, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from groups import GROUPS, PROPS

T0 = time.time()


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+) label=(.*?) :: (.*)", l)
            if m:
                out.append({"property": m[1], "case": m[2], "label": m[3].strip(), "what": m[4].strip()})
    except OSError:
        pass
    return out


# when the cases have to be done, and how long each may explore (seconds since the start of the check)
LIMITS = {"quick": (560, 300), "thorough": (5400, 2400)}


def run_case(exe, case, outdir, tier):
    out = os.path.join(outdir, case + ".json")
    if os.path.exists(out):
        os.remove(out)
    t = time.time()
    end, explore = LIMITS[tier]
    left = max(20, end - (t - T0))
    explore = min(explore, left, float(os.environ.get("VERIF_CASE_S", explore)))
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    env.setdefault("SYMREAL_VC_MS", "40000" if tier == "quick" else "240000")
    env["SYMREAL_CASE_S"] = str(int(explore))
    env["SYMREAL_DEADLINE_S"] = str(int(left))
    env["SYMREAL_WORKERS"] = "3"
    p = subprocess.Popen([exe, "run", case, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        log, _ = p.communicate(timeout=left + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        log, _ = p.communicate()
    if p.returncode == 0 and os.path.exists(out):
        r = json.load(open(out))
    else:
        r = {"candidates": [], "inconclusive": [f"case process ended with {p.returncode}: {log[-800:]}"]}
    r["case"] = case
    r["elapsed"] = round(time.time() - t, 2)
    return r


def replay(exe, case, cand, tries, outdir, tier):
    mf = os.path.join(outdir, f"{case}.model")
    with open(mf, "w") as f:
        for k, v in cand.get("model", {}).items():
            f.write(f"v {k} {v!r}\n")
        for k, v in cand.get("choices", {}).items():
            f.write(f"c {k} {v}\n")
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    try:
        p = subprocess.run([exe, case, mf, str(tries), str(seed())], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=100, env=env)
    except subprocess.TimeoutExpired:
        return None
    if "REPRODUCED try=" not in p.stdout or p.stdout.startswith("NOT"):
        return None
    failed, model, choices = [], {}, {}
    for l in p.stdout.splitlines():
        if l.startswith("FAILED "):
            failed.append(l[7:])
        w = l.split()
        if len(w) == 3 and w[0] == "v":
            model[w[1]] = float(w[2])
        if len(w) == 3 and w[0] == "c":
            choices[w[1]] = int(w[2])
    return {"case": case, "failed": failed, "model": model, "choices": choices}


def evidence(pid, tier, cov, nviol, assumptions):
    ev = {"property": pid, "tier": tier, "seed": seed(), "level": "other", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def finish(pid, tier, viols, inconclusive, broken, cov, assumptions):
    kn = [k for k in known() if k["property"] == pid]
    fresh = []
    for v in viols:
        left = []
        for lab in v["failed"]:
            hit = [k for k in kn if k["case"] == v["case"] and lab.startswith(k["label"])]
            if hit:
                print(f"KNOWN-FINDING: property={pid} {hit[0]['what']}")
            else:
                left.append(lab)
        if left:
            fresh.append(v)
    cov["undecided"] = inconclusive
    evidence(pid, tier, cov, len(fresh), assumptions)
    if fresh:
        path = os.path.join(HERE, "evidence", pid + ".replay.json")
        with open(path, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh[:5]:
            print(f"  {v['case']}: {'; '.join(v['failed'])[:300]}")
            print(f"    choices {v.get('choices')} inputs {v.get('model')}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive:
        # nothing is claimed about these: no counterexample that the real code reproduces, and no proof
        for i in inconclusive[:20]:
            print("UNDECIDED", i[:600])
        if broken or not cov.get("discharged_unsat"):
            return 2
    print(f"OK property={pid} tier={tier} wall={time.time()-T0:.1f}s "
          f"vcs={cov.get('verification_conditions')} queries={cov.get('solver_queries')}")
    return 0


def sym_property(pid, tier):
    groups = PROPS[pid]["groups"]
    viols, inconc, broken, results = [], [], [], []
    crates = set()
    only = os.environ.get("VERIF_CASE")
    for g in groups:
        try:
            exe, names = B.build("sym", g, GROUPS[g])
        except (B.BuildError, subprocess.TimeoutExpired) as e:
            print(e)
            broken.append(f"symbolic build of {g} failed")
            continue
        crates |= set(names)
        outdir = os.path.join(B.BUILD, "out", pid)
        os.makedirs(outdir, exist_ok=True)
        lst = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        cases = [l.split() for l in lst if l.strip()]
        cases = [c[1] for c in cases if c[0] == pid and (c[2] == "0" or tier == "thorough")]
        if only:
            cases = [c for c in cases if c == only]
        if not cases:
            broken.append(f"no case of {pid} in {g}")
        with cf.ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(lambda c: run_case(exe, c, outdir, tier), cases))
        for r in rs:
            r["group"] = g
        results += rs
    nat = {}
    for r in results:
        sus = bool(r["candidates"]) or bool(r["inconclusive"])
        if not sus:
            if r["paths_completed"] == 0 or (r["vcs"] == 0):
                inconc.append(f"{r['case']}: vacuous (no complete path with a check)")
            elif r["witnesses"] == 0:
                inconc.append(f"{r['case']}: no reachability witness")
            continue
        g = r["group"]
        if g not in nat:
            try:
                nat[g] = B.build("nat", g, GROUPS[g])[0]
            except (B.BuildError, subprocess.TimeoutExpired) as e:
                print(e)
                nat[g] = None
        outdir = os.path.join(B.BUILD, "out", pid)
        got, seen = [], set()
        if nat[g]:
            for c in r["candidates"]:
                if c["label"] in seen:
                    continue
                v = replay(nat[g], r["case"], c, 0, outdir, tier)
                if v:
                    v["solver_label"] = c["label"]
                    v["how"] = "solver model replayed as is"
                    got.append(v)
                    seen.add(c["label"])
            if not got:
                for c in (r["candidates"] or [{}])[:4]:
                    v = replay(nat[g], r["case"], c, 20000, outdir, tier)
                    if v:
                        v["solver_label"] = c.get("label", "solver gave no verdict")
                        v["how"] = "concrete input found from the solver's model by native search"
                        got.append(v)
                        break
        if got:
            viols += got
        else:
            for c in r["candidates"][:4]:
                inconc.append(f"{r['case']}: counterexample for '{c['label']}' did not reproduce natively: {c['choices']} {c['model']}")
            for i in r["inconclusive"]:
                inconc.append(f"{r['case']}: {i}")
    kani = []
    if "kani" in PROPS[pid] and not only:
        import kani_engine
        g, cr, hs = PROPS[pid]["kani"]
        v, i, kani = kani_engine.run(pid, tier, g, cr, hs, T0)
        viols += v
        inconc += i
    S = lambda k: sum(r.get(k, 0) for r in results)
    funs = sorted({f for r in results for f in r.get("functions", []) if not f.startswith("h_")})
    by = {}
    for r in results:
        for k, v in r.get("decided_by", {}).items():
            by[k] = by.get(k, 0) + v
    cov = {
        "explanation": "Symbolic execution of the crates' own functions (lifted from /repo's current source: f64 -> "
                       "symbolic real), every path within the stated shapes; each verification condition is "
                       "(path condition and not assertion), sent to z3 5.x / cvc5; unsat = holds for every value in the input ranges.",
        "cases": [{k: r.get(k) for k in ("case", "paths", "paths_completed", "paths_dropped", "paths_panicked", "forks",
                                         "vcs", "vcs_identical", "vcs_repeated", "vcs_unsat", "solver_ms", "max_vc_ms", "witnesses", "sample",
                                         "inputs", "labels", "divisors_assumed_nonzero", "feasibility_unknown", "elapsed")} for r in results],
        "functions_encoded": funs, "functions_encoded_count": len(funs),
        "crates_lifted": sorted(crates),
        "paths": S("paths"), "verification_conditions": S("vcs"), "discharged_unsat": S("vcs_unsat"),
        "reduced_to_identical_terms": S("vcs_identical"),
        "solver_queries": S("feasibility_queries") + S("vc_queries"), "solver_ms": S("solver_ms"),
        "decided_by": by, "reachability_witnesses": S("witnesses"),
        "samples": [r.get("sample") for r in results if r.get("sample")][:5],
        "bounds": PROPS[pid].get("bounds", ""),
    }
    if kani:
        cov["kani"] = kani
    ass = ["floating-point numbers are modelled as mathematical reals (rounding, overflow and signed zero are outside the claim); decimal literals denote their exact decimal value",
           "transcendental functions are fresh reals constrained by axioms (range, monotonicity, Pythagorean identity)",
           "the lifting tool, z3 and cvc5 are trusted"] + PROPS[pid].get("assumptions", [])
    return finish(pid, tier, viols, broken + inconc, broken, cov, ass)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return sym_property(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
