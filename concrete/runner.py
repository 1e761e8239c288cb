"""runner.py PROPERTY TIER SEED BUDGET OUT [trial@seed]"""
import sys, os, json, time, random, traceback, importlib, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
pid, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
only = sys.argv[6] if len(sys.argv) > 6 else None
import logging, warnings
import lib
import mass
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
_dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(_dn, 1)
assert os.path.realpath(mass.__file__).startswith(os.path.realpath(os.environ["PYTHONPATH"])), mass.__file__
mod = importlib.import_module(pid)
state = {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "per_trial": {}, "current": None, "finished": False}
seen = set()


def dump():
    with open(out + ".tmp", "w") as f:
        json.dump(state, f, default=str)
    os.replace(out + ".tmp", out)


class Alarm(Exception):
    pass


def on_alarm(*a):
    raise Alarm("the real code did not finish within 60 s on this input")


signal.signal(signal.SIGALRM, on_alarm)


def one(name, fn, s):
    lib.NOTE.clear()
    rng = lib.Rng(f"{name}:{s}")
    state["current"] = {"trial": name, "seed": s}
    signal.alarm(60)
    try:
        fn(rng)
        msg = None
    except lib.Skip:
        return
    except AssertionError as e:
        msg = "contract broken: " + (str(e) or traceback.format_exc(limit=-2))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        msg = f"unexpected {type(e).__name__}: {e} @ " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
    finally:
        signal.alarm(0)
        lib.cleanup()
    state["evaluations"] += 1
    pt = state["per_trial"].setdefault(name, {"n": 0, "violations": 0})
    pt["n"] += 1
    txt = repr(lib.NOTE)
    h = hashlib.md5((name + txt).encode()).digest()
    if h not in seen:
        seen.add(h)
        state["distinct"] = len(seen)
    if pt["n"] in (2, 7) and len(state["samples"]) < 40:
        state["samples"].append(f"{name}: {txt[:300]}")
    if msg:
        pt["violations"] += 1
        if sum(1 for v in state["violations"] if v["trial"] == name) < 4:
            state["violations"].append({"trial": name, "seed": s, "message": msg[:1500], "input": txt[:4000]})
            dump()


if only:
    nm, s = only.rsplit("@", 1)
    one(nm, dict(mod_trials := {t.name: t.fn for t in lib.TRIALS})[nm], int(s) if s.isdigit() else s)
else:
    trials = lib.TRIALS
    dump()
    t0 = time.time()
    # every trial gets a minimum number of runs, then a share of the remaining time
    tot = sum(t.weight for t in trials)
    for t in trials:
        share = budget * t.weight / tot
        ts = time.time()
        k = 0
        mn = t.min_runs if tier == "quick" else t.min_runs * 5
        while k < mn or time.time() - ts < share:
            if k >= t.max_runs * (1 if tier == "quick" else 20):
                break
            if time.time() - ts > share * 4 + 20:
                break
            one(t.name, t.fn, seed * 1000003 + k)
            k += 1
            if state["per_trial"].get(t.name, {}).get("violations", 0) >= 4:
                break
state["finished"] = True
state["current"] = None
dump()
