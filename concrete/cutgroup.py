"""a cut registry over a real HDF5 file, and its invariants"""
import h5py, numpy as np
from lib import check
from mass.core.cut import CutFieldMixin, Cuts


def popcount(x): return bin(int(x)).count("1")


class Group(CutFieldMixin):
    """the registry part of a TESGroup over a real HDF5 file"""

    def __init__(self, path, mem=False):
        self.hdf5_file = h5py.File(path, "a", driver="core", backing_store=False) if mem else h5py.File(path, "a")
        self.datasets = ()

    def add(self, n, stored, name):
        g = self.hdf5_file.require_group(name) if stored else None
        class DS: pass
        ds = DS()
        ds.cuts = Cuts(n, self, hdf5_group=g)
        ds.nPulses = n
        self.datasets = self.datasets + (ds,)
        return ds


def read_registry(g):
    b = {r["name"].decode(): int(r["mask"]) for r in g.boolean_cut_desc if r["name"]}
    c = {r["name"].decode(): int(r["mask"]) for r in g.categorical_cut_desc}
    return b, c


def check_invariants(g):
    b, c = read_registry(g)
    check(sum(1 for r in g.boolean_cut_desc if r["name"]) == len(b), "boolean names are distinct")
    check(len(g.categorical_cut_desc) == len(c), "categorical names are distinct")
    used = 0
    for n, m in b.items():
        check(popcount(m) == 1, "a boolean cut owns exactly one bit", name=n, mask=m)
        check(used & m == 0, "bits are not shared", name=n)
        used |= m
    for n, m in c.items():
        check(m != 0, "categorical mask not empty", name=n)
        check(used & m == 0, "bits are not shared", name=n, mask=m)
        used |= m
        codes = g.cut_field_categories(n)
        vals = [int(v) for v in codes.values()]
        check(len(set(vals)) == len(vals), "labels have different codes", codes=codes)
        low = m & -m
        for v in vals:
            check((v * low) & ~m == 0, "codes fit the bits of the field", code=v, mask=m)
    check(int(g.cut_used_bit_flags) == used, "the used-bit word is the union of the registered masks", used=bin(int(g.cut_used_bit_flags)), expected=bin(used))
    return b, c


NAMES = ["a", "b", "cc", "smart", "x" * 64, "é", "p_filt_phase", "A", "a ", "long" * 15] + [f"n{i}" for i in range(30)]
LABELS = ["uncategorized", "in", "out", "Mn Ka", "0", "1", "é", "y" * 64] + [f"L{i}" for i in range(20)]


