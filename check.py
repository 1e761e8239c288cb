#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough        run one property's check (deductive part + bounded execution part)
   check.py replay FILE                     re-run one recorded failing input against /repo

Deciding step: every obligation generated from /repo's current source is discharged by the verifier (engine/).
The execution part runs the same contract on the really built code; it supplies failing inputs and covers what the
deductive part names as assumption.  It is bounded and never counted as proof."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYREAL = "/opt/venv/bin/python"
PYVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
PYX = ["mass/core/cython_channel", "mass/core/analysis_algorithms", "mass/mathstat/robust", "mass/mathstat/entropy"]


def real_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
             MPLCONFIGDIR=os.path.join(scratch, ".mpl"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             HOME=scratch, LANG="C.UTF-8", NUMBA_CACHE_DIR=os.path.join(scratch, ".numba"), TMPDIR=os.path.join(scratch, "tmp"))
    return e


def build(scratch):
    """copy of /repo's working tree sources, freshly compiled.  Returns error text or None"""
    shutil.copytree(os.path.join(REPO, "mass"), os.path.join(scratch, "mass"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
    os.makedirs(os.path.join(scratch, "tmp"))
    if os.path.isdir("/opt/vp/cache/matplotlib"):
        shutil.copytree("/opt/vp/cache/matplotlib", os.path.join(scratch, ".mpl"))
    env = real_env(scratch)
    q = subprocess.run([PYREAL, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());"
                        "print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True, env=env)
    inc1, inc2, suf = q.stdout.split()

    def one(n):
        r = subprocess.run([PYREAL, "-m", "cython", "-3", n + ".pyx", "-o", n + ".c"], cwd=scratch, env=env,
                           capture_output=True, text=True)
        if r.returncode:
            return n + ": " + (r.stderr or r.stdout)[-1500:]
        r = subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-fwrapv", "-fno-strict-aliasing", "-I" + inc1, "-I" + inc2,
                            n + ".c", "-o", n + suf], cwd=scratch, env=env, capture_output=True, text=True)
        if r.returncode:
            return n + ": " + r.stderr[-1500:]
    with ThreadPoolExecutor(4) as ex:
        errs = [e for e in ex.map(one, PYX) if e]
    return "\n".join(errs) or None


# ------------------------------------------------------------------ deductive part
def harness_names(pid):
    r = subprocess.run([PYVT, os.path.join(HERE, "engine", "worker.py"), pid, "--list"], capture_output=True, text=True, timeout=120)
    if r.returncode:
        return None, r.stderr[-3000:]
    return json.loads(r.stdout.strip().split("\n")[-1]), None


def run_harness(pid, name, mode, timeout):
    t0 = time.time()
    try:
        r = subprocess.run([PYVT, os.path.join(HERE, "engine", "worker.py"), pid, name, mode], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(name=name, obligations=[], errors=["time limit of the harness process reached"], paths=0, queries=0, solver_s=timeout,
                    wall_s=timeout, covers={}, bounded=[], functions=[], assumptions=[], loops=[])
    if r.returncode or not r.stdout.strip():
        return dict(name=name, obligations=[], errors=["worker crashed: " + r.stderr[-1500:]], paths=0, queries=0, solver_s=0,
                    wall_s=time.time() - t0, covers={}, bounded=[], functions=[], assumptions=[], loops=[])
    return json.loads(r.stdout.strip().split("\n")[-1])


def verdict(d):
    """-> 'ok' | 'failed' | 'limit'"""
    bad = [o for o in d["obligations"] if o["ok"] != o["paths"]]
    if any(o["failed"] for o in bad):
        return "failed"
    if d["errors"]:
        return "limit"
    if bad:
        return "failed"
    if not d["obligations"] or any(v is False for v in d["covers"].values()):
        return "limit"
    return "ok"


def deduce(pid, tier, workers):
    names, err = harness_names(pid)
    if names is None:
        return [], [], [], "contracts could not be loaded: " + err
    tmo = 200 if tier == "quick" else 800

    def job(n):
        d = run_harness(pid, n, "full", tmo)
        v = verdict(d)
        d["verdict"] = v
        if v != "ok":
            b = run_harness(pid, n, "unroll", tmo)
            d["fallback"] = b
            d["fallback_verdict"] = verdict(b)
        return d
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(job, names))
    proved, demoted, failed = [], [], []
    for d in res:
        if d["verdict"] == "ok":
            proved.append(d)
        elif d["fallback_verdict"] == "ok":
            demoted.append(d)
        elif d["verdict"] == "limit" and d["fallback_verdict"] == "limit":
            demoted.append(d)
        else:
            failed.append(d)
    return proved, demoted, failed, None


# ------------------------------------------------------------------ execution part
def execute(pid, tier, seed, scratch, budget, out, only=None):
    drv = os.path.join(HERE, "concrete", pid + ".py")
    if not os.path.exists(drv):
        return None
    cmd = [PYREAL, "-W", "ignore", os.path.join(HERE, "concrete", "runner.py"), pid, tier, str(seed), str(budget), out]
    if only:
        cmd.append(only)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=real_env(scratch), cwd=scratch, timeout=budget * 3 + 180)
    except subprocess.TimeoutExpired:
        return {"crash": "execution part exceeded its time limit (the code under test does not terminate on a generated input)", "evaluations": 0,
                "violations": [], "distinct": 0, "samples": []}
    try:
        with open(out) as f:
            d = json.load(f)
    except Exception:
        d = None
    if r.returncode != 0 or d is None or not d.get("finished"):
        d = d or {"evaluations": 0, "violations": [], "distinct": 0, "samples": []}
        d["crash"] = f"exit {r.returncode}; last trial {d.get('current')}: " + (r.stderr[-2500:])
    return d


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("kind") == "finding":
                    out.append(d)
    return out


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    violations, notes = [], []
    try:
        with ThreadPoolExecutor(2) as ex:
            fb = ex.submit(build, scratch)
            fd = ex.submit(deduce, pid, tier, 6)
            berr = fb.result()
            conc = None
            budget = float(os.environ.get("VERIF_BUDGET", "25" if tier == "quick" else "300"))
            if berr is None:
                conc = execute(pid, tier, seed, scratch, budget, os.path.join(scratch, "conc.json"))
            proved, demoted, failed, derr = fd.result()
        kf = known_findings(pid)
        hit_known = set()
        # execution part
        if conc is not None:
            for v in conc["violations"]:
                k = next((i for i, f in enumerate(kf) if f["trial"] == v["trial"] and f["match"] in v["message"]), None)
                if k is not None:
                    hit_known.add(k)
                    continue
                path = write_replay(pid, v["trial"], {"property": pid, "kind": "input", "trial": v["trial"], "seed": v["seed"], "tier": tier,
                                                       "input": v.get("input"), "message": v["message"],
                                                       "command": f"python3 /verif/check.py replay <this file>"})
                violations.append((path, f"{v['trial']}: {v['message'][:300]}", False))
            if conc.get("crash"):
                path = write_replay(pid, "crash", {"property": pid, "kind": "crash", "trial": (conc.get("current") or {}).get("trial"),
                                                    "seed": (conc.get("current") or {}).get("seed"), "tier": tier, "message": conc["crash"]})
                violations.append((path, "the real code crashed: " + conc["crash"][:300], False))
        if berr is not None:
            notes.append("build of /repo failed: " + berr[:500])
        # deductive part
        if derr:
            notes.append(derr)
        have_input = bool(violations)
        for d in failed:
            bad = [o for o in d["obligations"] if o["ok"] != o["paths"]]
            path = write_replay(pid, "obligation_" + d["name"], {"property": pid, "kind": "obligation", "harness": d["name"],
                                 "failed_obligations": bad, "errors": d["errors"], "fallback": {k: d.get("fallback", {}).get(k) for k in ("obligations", "errors")},
                                 "functions": d["functions"]})
            nm = bad[0]["name"] if bad else d["name"]
            if not have_input:
                violations.append((path, f"obligation {nm} is not discharged", True))
            else:
                notes.append(f"obligation {nm} is not discharged (see also {path})")
        for d in demoted:
            notes.append(f"harness {d['name']}: not proved on this source ({'; '.join(d['errors'][:1]) or 'annotation does not fit'}); "
                         f"fallback (bounded unrolling): {d['fallback_verdict']}")
        for i, f in enumerate(kf):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        write_evidence(pid, tier, seed, proved, demoted, failed, conc, violations, notes, time.time() - t0, kf)
        for n in notes:
            print("note:", n)
        nob = sum(len(d["obligations"]) for d in proved)
        print(f"{pid}: {nob} obligations discharged in {len(proved)} harnesses; {len(demoted)} demoted; {len(failed)} failed; "
              f"execution part {conc['evaluations'] if conc else 0} evaluations; {time.time()-t0:.1f}s")
        for path, msg, nofail in violations[:5]:
            print("detail:", msg.replace("\n", " ")[:600])
            print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if nofail else ""))
        if not violations and not proved and conc is None:
            print("note: nothing could be decided on this tree")
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_replay(pid, tag, d):
    h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:8]
    path = os.path.join(HERE, "evidence", "replay", f"{pid}_{tag.replace('/', '_')}_{h}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    print(json.dumps({k: d[k] for k in d if k not in ("fallback",)}, indent=1)[:6000])
    if d.get("kind") == "obligation":
        r = run_harness(d["property"], d["harness"], "full", 600)
        bad = [o["name"] for o in r["obligations"] if o["ok"] != o["paths"]]
        print("verifier says now:", verdict(r), bad, r["errors"])
        return 1 if verdict(r) != "ok" else 0
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        e = build(scratch)
        if e:
            print(e)
            return 1
        out = os.path.join(scratch, "conc.json")
        c = execute(d["property"], d.get("tier", "quick"), 1, scratch, 60, out, only=f"{d['trial']}@{d['seed']}")
        print(json.dumps(c, indent=1)[:4000])
        return 1 if c["violations"] or c.get("crash") else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, proved, demoted, failed, conc, violations, notes, wall, kf):
    sys.path.insert(0, os.path.join(HERE))
    meta = json.load(open(os.path.join(HERE, "meta.json"))).get(pid, {}) if os.path.exists(os.path.join(HERE, "meta.json")) else {}
    full = [d for d in proved if not d["bounded"]]
    bnd = [d for d in proved if d["bounded"]]
    allh = proved + demoted + failed
    n_obl = sum(len(d["obligations"]) for d in full + demoted + failed) or 0
    n_dis = sum(sum(1 for o in d["obligations"] if o["ok"] == o["paths"]) for d in full)
    backends = {}
    for d in full:
        for o in d["obligations"]:
            for b in o["backend"]:
                backends[b] = backends.get(b, 0) + 1
    assumptions = sorted({a for d in allh for a in d["assumptions"]} | set(meta.get("assumptions", [])) | set(COMMON))
    cov = {
        "obligations": n_obl, "discharged": n_dis,
        "checker_cmd": f"python3-vt engine/worker.py {pid} <harness> full   (z3 {zver()}, cvc5 second)",
        "trusted_base": ["PyVC engine (/verif/engine): AST instrumentation, proxy semantics, loop rule", "z3", "cvc5",
                          "numpy semantics as axiomatised in engine/symnp.py", "CPython executing the instrumented source"],
        "functions_under_contract": sorted({f for d in full for f in d["functions"]}),
        "functions_bounded_only": sorted({f for d in bnd for f in d["functions"]} - {f for d in full for f in d["functions"]}),
        "harnesses": [dict(name=d["name"], verdict=d.get("verdict"), fallback=d.get("fallback_verdict"), obligations=len(d["obligations"]),
                           paths=d["paths"], queries=d["queries"], solver_s=d["solver_s"], bounded=d["bounded"], loops_with_invariants=d["loops"],
                           covers=d["covers"], errors=d["errors"][:2]) for d in allh],
        "obligation_names": sorted({o["name"] for d in full for o in d["obligations"]}),
        "backends": backends,
        "solver_s": round(sum(d["solver_s"] for d in allh), 2),
        "bounded_standins": {"obligations": sum(len(d["obligations"]) for d in bnd), "bounds": sorted({b for d in bnd for b in d["bounded"]})},
    }
    if conc is not None:
        cov["evaluations"] = max(1, conc["evaluations"])
        cov["distinct_nontrivial"] = conc.get("distinct", 0)
        cov["rule"] = meta.get("rule", "distinct generated inputs per trial kind (hash of the printed input), executed on the freshly built code")
        cov["samples"] = conc.get("samples", [])[:6] or ["none"]
        cov["trials"] = conc.get("per_trial", {})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "proof"), "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2), "violations": len(violations), "notes": notes + [f"known finding: {f['what']}" for f in kf]}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


COMMON = ["floating point is treated as real arithmetic and C/numpy integers as mathematical integers unless a contract says otherwise",
          "numpy/h5py/scipy calls behave as axiomatised (engine/symnp.py) or as the stub of the harness says"]


def zver():
    try:
        return subprocess.run([PYVT, "-c", "import z3;print(z3.get_version_string())"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.exit(main())
