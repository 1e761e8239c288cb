"""categorical labels: the same histories as C02, biased to labels; plus the group-level entry points"""
import numpy as np, os, contextlib, io
from lib import *
import lib
import C02 as base
from cutgroup import *
lib.TRIALS.clear()


class Biased:
    """the op list of step() with more label operations"""


@trial(weight=4, min_runs=30)
def label_history(rng):
    st = base.State(rng)
    st.verify()
    ch = rng.choice
    rng.choice = lambda xs: ch(["label", "codes", "conflict", "regcat", "regcat", "unregcat", "query", "reg", "unreg", "cut", "unknown"]) \
        if isinstance(xs, list) and len(xs) == 16 and xs[0] == "cut" else ch(xs)
    for _ in range(rng.randint(2, 25)):
        base.step(st, rng)
        if rng.maybe(0.3):
            st.verify()
    st.verify()
    st.g.hdf5_file.close()


@trial(weight=1.5, min_runs=20)
def wide_and_fragmented(rng):
    """many labels, and free bits that are not contiguous"""
    st = base.State(rng)
    for f in list(st.bools):
        if rng.maybe(0.6):
            st.g.unregister_boolean_cut_fields(f)
            del st.bools[f]
    labs = [f"x{i}" for i in range(rng.choice([3, 4, 7, 8, 9, 31, 64, 100]))]
    try:
        st.g.register_categorical_cut_field("wide", labs)
    except ValueError:
        st.g.hdf5_file.close()
        raise Skip()
    st.addcat("wide")
    mask = [int(r["mask"]) for r in st.g.categorical_cut_desc if r["name"] == b"wide"][0]
    low = mask & -mask
    vals = st.cats["wide"][0]
    check(len(set(vals.values())) == len(labs) + 1, "every label has its own number", vals=vals)
    for f in rng.sample(sorted(st.bools), k=min(3, len(st.bools))):
        m = st.mask()
        st.cuts.cut(f, m)
        st.bools[f] = m.tolist()
    for _ in range(3):
        who = [rng.choice(labs + ["uncategorized"]) for _ in range(st.n)]
        note(labels=len(labs), mask=bin(mask), who=who)
        st.cuts.cut_categorical("wide", {l: np.array([w == l for w in who], dtype=bool) for l in set(who)})
        st.cats["wide"] = (vals, [vals[w] for w in who])
        st.verify()
    st.g.hdf5_file.close()
