"""C01-C03: the cut registry and the per-pulse marks, driven through the public API with a model kept beside it"""
import numpy as np, h5py, os, contextlib, io
from lib import *
from cutgroup import *


@trial(weight=3, min_runs=40)
def registry_history(rng):
    d = tmpdir()
    path = os.path.join(d, "f.hdf5")
    g = Group(path)
    g.cut_field_desc_init()
    log = []
    note(log=log)
    b, c = check_invariants(g)
    if rng.maybe(0.7):
        for n in list(b):
            if rng.maybe(0.8):
                g.unregister_boolean_cut_fields(n)
                log.append(("unreg", n))
    for _ in range(rng.randint(1, 22)):
        b0, c0 = check_invariants(g)
        cl0 = {n: dict(g.cut_field_categories(n)) for n in c0}
        op = rng.random()
        if op < 0.4:
            names = rng.choices(NAMES, k=rng.choice([1, 1, 2, 3, 6, 12]))
            log.append(("reg", names))
            try:
                g.register_boolean_cut_fields(*names)
                ok = True
            except ValueError:
                ok = False
            b1, c1 = check_invariants(g)
            new = set(names) - set(b0)
            free = 32 - popcount(sum(b0.values()) + sum(c0.values()))
            check(ok == (len(new) <= free), "refused exactly when the bits do not suffice", new=new, free=free)
            if ok:
                check(set(b1) == set(b0) | new, "exactly the requested names are added")
            else:
                check(b1 == b0, "a refused request changes nothing", before=b0, after=b1)
            check(all(b1[n] == m for n, m in b0.items()), "existing boolean cuts keep their bit")
            check(c1 == c0, "categorical cuts untouched")
        elif op < 0.6 and b0:
            names = rng.choices(sorted(b0), k=rng.choice([1, 1, 2, 4]))
            bad = rng.maybe(0.25)
            if bad:
                names = names + ["not there"]
                rng.shuffle(names)
            log.append(("unreg", names))
            r = raises(KeyError, g.unregister_boolean_cut_fields, *names)
            b1, c1 = check_invariants(g)
            check(r == bad, "unknown names are refused", names=names)
            check(b1 == (b0 if bad else {n: m for n, m in b0.items() if n not in names}), "exactly the named cuts disappear", before=b0, after=b1)
            check(c1 == c0, "categorical cuts untouched")
        elif op < 0.85:
            n = rng.choice(NAMES)
            labs = rng.choices(LABELS, k=rng.choice([0, 1, 2, 2, 3, 4, 7, 8, 15]))
            if rng.maybe():
                labs = tuple(labs)
            dflt = rng.choice(LABELS) if rng.maybe() else None
            log.append(("regcat", n, labs, dflt))
            try:
                g.register_categorical_cut_field(n, labs, *([dflt] if dflt else []))
                ok = True
            except ValueError:
                ok = False
            b1, c1 = check_invariants(g)
            check(b1 == b0, "boolean cuts untouched")
            check(all(c1.get(k) == m for k, m in c0.items()), "existing categorical cuts keep their bits")
            check(all(dict(g.cut_field_categories(k)) == cl0[k] for k in c0), "existing labels keep their codes")
            want = [dflt or "uncategorized"] + [x for x in labs if x != (dflt or "uncategorized")]
            want = list(dict.fromkeys(want))
            if n in c0 or not ok:
                check(c1 == c0, "nothing is added", ok=ok)
            else:
                check(set(c1) == set(c0) | {n}, "the field is added")
                codes = g.cut_field_categories(n)
                check(set(codes) == set(want), "labels are the requested ones", codes=codes, want=want)
                check(int(codes[want[0]]) == 0, "default label has code 0", codes=codes)
            if not ok:
                free = 32 - popcount(sum(b0.values()) + sum(c0.values()))
                check(len(want) > (1 << free) // 2, "refused only when bits ran out", free=free, want=want)
        elif c0:
            n = rng.choice(sorted(c0) + ["nope"])
            log.append(("unregcat", n))
            r = raises(KeyError, g.unregister_categorical_cut_field, n)
            b1, c1 = check_invariants(g)
            check(r == (n not in c0), "unknown names are refused", name=n)
            check(b1 == b0 and c1 == {k: m for k, m in c0.items() if k != n}, "exactly the named field disappears")
            check(all(dict(g.cut_field_categories(k)) == cl0[k] for k in c1), "labels of other fields survive")
            check(not len(g.cut_field_categories(n)), "labels of the field are gone")
        if rng.maybe(0.1):
            log.append("reopen")
            b0, c0 = read_registry(g)
            g.hdf5_file.close()
            g = Group(path)
            g.cut_field_desc_init()
            check(read_registry(g) == (b0, c0), "reopening the file changes nothing")
    g.hdf5_file.close()


@trial(weight=1, min_runs=4)
def registry_of_a_group(rng):
    """the registry a TESGroup creates on its own"""
    import mass
    from mkdata import write_ljh
    d = tmpdir()
    f = write_ljh(os.path.join(d, "a_chan1.ljh"), rng.np.integers(0, 9, (3, 20)), np.arange(3), np.arange(3))
    with contextlib.redirect_stdout(io.StringIO()):
        g = mass.TESGroup([os.path.join(d, "a_chan1.ljh")])
    b, c = check_invariants(g)
    check(len(b) == len(g.BUILTIN_BOOLEAN_CUT_FIELDS) and "calibration" in c, "the built-in cuts are registered", b=b, c=c)
    n = 32 - popcount(sum(b.values()) + sum(c.values()))
    names = [f"u{i}" for i in range(n)]
    g.register_boolean_cut_fields(*names[: n // 2])
    for x in names[n // 2:]:
        g.register_boolean_cut_fields(x)
    b1, _ = check_invariants(g)
    check(set(b1) == set(b) | set(names), "all 32 bits can be used")
    check(raises(ValueError, g.register_boolean_cut_fields, "one more"), "the 33rd is refused")
    check(check_invariants(g) == (b1, c), "and nothing changed")
    g.hdf5_file.close()
