import time
import pyvc


class Harness:
    def __init__(self, name, fn, functions=(), specs=None, qtimeout=8.0, unroll=4, max_paths=3000, bounded=None, budget=240):
        self.name, self.fn, self.functions, self.specs = name, fn, list(functions), specs or {}
        self.qtimeout, self.unroll, self.max_paths = qtimeout, unroll, max_paths
        self.bounded = bounded       # a stated bound: this harness is a bounded stand-in, never counted as proof
        self.budget = budget

    def run(self, specs=True):
        c = pyvc.Ctx(self.name, self.specs if specs else {}, self.qtimeout, self.unroll, self.max_paths,
                     deadline=time.time() + self.budget)
        t0 = time.time()
        c.run(self.fn)
        d = dict(name=self.name, functions=self.functions, paths=c.npaths, queries=c.nqueries,
                 solver_s=round(c.solver_time, 3), wall_s=round(time.time() - t0, 3),
                 assumptions=sorted(c.assumptions), bounded=sorted(c.bounded) + ([self.bounded] if self.bounded else []),
                 covers=dict(c.covers), errors=list(c.errors[:6]),
                 loops=sorted(f"{a}#{b}" for a, b in c.loops_used), obligations=[])
        for o in c.obl.values():
            d["obligations"].append(dict(name=f"{self.name}/{o.name}", paths=o.paths, ok=o.ok, failed=o.failed,
                                         unknown=o.unknown, time=round(o.time, 3), backend=sorted(o.backend), detail=o.detail))
        return d
