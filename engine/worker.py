"""worker.py CONTRACT HARNESS full|unroll  -> one JSON line"""
import sys, os, importlib, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "contracts")]
sys.setrecursionlimit(20000)
import warnings
warnings.filterwarnings("ignore")
m = importlib.import_module(sys.argv[1])
if sys.argv[2] == "--list":
    print(json.dumps([h.name for h in m.HARNESSES]))
    sys.exit(0)
h = next(h for h in m.HARNESSES if h.name == sys.argv[2])
print(json.dumps(h.run(specs=sys.argv[3] != "unroll"), default=str))
