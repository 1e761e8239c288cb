import os
import numpy as np
from lib import *
from mktes import quiet
from mkdata import write_ljh
from mass.core import ljh_util as lu

DIRS = ["/data/run1", "/data/x_chan3", "rel", "/d/a_chan", "/d.e/f_chan9_b", ""]
STEMS = ["run", "a_noise", "b_chan2_c", "x_chan", "nopeχ", "r.s"]
EXT = [".ljh", ".noi", ".off", "", ".tar.gz"]


def name(rng, d=None, st=None, ch=None, ext=None):
    d = rng.choice(DIRS) if d is None else d
    st = rng.choice(STEMS) if st is None else st
    ch = rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 21, 100, 94932]) if ch is None else ch
    ext = rng.choice(EXT) if ext is None else ext
    num = ("%03d" % ch) if rng.maybe(0.1) else str(ch)
    base = os.path.join(d, st) if d else st
    return base + "_chan" + num + ext, base, ch, ext


@trial(weight=1, min_runs=300)
def parse(rng):
    f, base, ch, ext = name(rng)
    note(name=f)
    check(lu.ljh_basename_channum(f) == (base, ch), "base name and channel of the last marker", got=lu.ljh_basename_channum(f))
    check(lu.ljh_channum(f) == ch, "channel", got=lu.ljh_channum(f))
    if ext not in (".tar.gz", ""):
        check(lu.ljh_chan_names(f, [ch, 7]) == [f"{base}_chan{ch}{ext}", f"{base}_chan7{ext}"], "names of channels", got=lu.ljh_chan_names(f, [ch, 7]))
    g = base.replace("_chan", "_ch") + ".ljh"
    check(lu.ljh_basename_channum(g) == (g[:-4], None), "no marker: no channel", got=lu.ljh_basename_channum(g))
    check(lu.ljh_get_extern_trig_fnames(f)["hdf5"] == base + "_external_trig.hdf5", "external trigger name")


def some(rng, n):
    same_dir = rng.maybe(0.6)
    d, st, ext = rng.choice(DIRS), rng.choice(STEMS), rng.choice(EXT)
    out = []
    for _ in range(n):
        f = name(rng, d if same_dir else None, st if same_dir and rng.maybe(0.8) else None, rng.choice([1, 2, 3, 5, 9, 10, 11, 100]), ext)[0]
        if f not in out or rng.maybe(0.2):
            out.append(f)
    return out


def container(rng, chans):
    t = rng.choice([list, tuple, set, np.array])
    return t(chans)


@trial(weight=1, min_runs=300)
def sorting(rng):
    fs = some(rng, rng.size(9))
    inc = None if rng.maybe(0.4) else container(rng, rng.sample([1, 2, 3, 5, 9, 10, 11, 100], rng.randint(0, 6)))
    note(names=fs, inclusion=None if inc is None else [int(x) for x in inc])
    orig = list(fs)
    arg = fs if rng.maybe(0.8) else tuple(fs)
    r = lu.ljh_sort_filenames_numerically(arg, inclusion_list=inc) if inc is not None else lu.ljh_sort_filenames_numerically(arg)
    check(list(arg) == orig, "the caller's list is unchanged", got=arg)
    if not fs:
        check(r is None, "nothing to sort")
        return
    want = sorted((f for f in orig if inc is None or lu.ljh_channum(f) in inc), key=lambda f: (lu.ljh_channum(f), f))
    check(list(r) == want, "files in channel order", got=r, want=want)


@trial(weight=1.5, min_runs=400)
def pairing(rng):
    a, b = some(rng, rng.size(8)), some(rng, rng.size(8))
    if rng.maybe(0.15):
        b = rng.choice([None, []])
    never = None if rng.maybe() else container(rng, rng.sample([1, 2, 3, 5, 9, 10], rng.randint(0, 3)))
    only = None if rng.maybe() else container(rng, rng.sample([1, 2, 3, 5, 9, 10, 11, 100], rng.randint(0, 7)))
    note(pulse=list(a), noise=None if b is None else list(b), never=None if never is None else [int(x) for x in never], only=None if only is None else [int(x) for x in only])
    a0, b0 = list(a), None if b is None else list(b)
    lu.remove_unpaired_channel_files(a, b, never_use=never, use_only=only)
    if not a0:
        return
    ca = {lu.ljh_channum(f) for f in a0}
    cb = {lu.ljh_channum(f) for f in b0} if b0 else ca
    ok = {x for x in ca & cb if (never is None or x not in set(never)) and (only is None or x in set(only))}
    check(a == [f for f in a0 if lu.ljh_channum(f) in ok], "pulse files that stay", got=a, channels=sorted(ok))
    if b0:
        check(b == [f for f in b0 if lu.ljh_channum(f) in ok], "noise files that stay", got=b, channels=sorted(ok))


@trial(weight=1, min_runs=8)
def on_disk(rng):
    """globbing, the channels present in a directory, and opened files report the parsed number"""
    import mass
    d = tmpdir()
    if rng.maybe():
        d = os.path.join(d, "x_chan8")
        os.mkdir(d)
    st = rng.choice(["run", "b_chan2_c", "r.s"])
    chans = rng.sample(range(1, 40), rng.randint(1, 5))
    other = rng.sample(range(1, 40), rng.randint(1, 3))
    for ch in chans:
        write_ljh(os.path.join(d, f"{st}_chan{ch}.ljh"), np.zeros((3, 20), np.uint16), presamples=5)
    for ch in other:
        open(os.path.join(d, f"{st}_chan{ch}.off"), "w").close()
        open(os.path.join(d, f"other_chan{ch}.ljh"), "w").close()
    note(dir=d, stem=st, chans=chans, other=other)
    pat = os.path.join(d, st + "_chan*.ljh")
    got = lu.filename_glob_expand(pat)
    check(got == [os.path.join(d, f"{st}_chan{c}.ljh") for c in sorted(chans)], "glob in channel order", got=got)
    check(lu.filename_glob_expand(got) is got, "a list is left alone")
    f = os.path.join(d, f"{st}_chan{chans[0]}.ljh")
    for ch in chans:
        check(mass.LJHFile.open(os.path.join(d, f"{st}_chan{ch}.ljh")).channum == ch, "channel number of the opened file")
    use = rng.sample(chans, rng.randint(1, len(chans)))
    with quiet():
        g = mass.TESGroup(pat, use_only=use)
    check([ds.channum for ds in g] == sorted(use), "channels of the group, in order")
    check(os.path.dirname(g.hdf5_file.filename) == d, "the HDF5 file is beside the data", got=g.hdf5_file.filename)
    g.hdf5_file.close()
