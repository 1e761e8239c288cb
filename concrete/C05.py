import os, hashlib, contextlib, io
import numpy as np
from lib import *
import C04 as base
from C04 import make
TRIALS.clear()
from mass.core.files import LJHFile
from mass.core.ljh_modify import LJHModify, ljh_copy_traces, ljh_append_traces, ljh_truncate


def sha(f):
    with open(f, "rb") as fp:
        return hashlib.sha256(fp.read()).hexdigest()


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def layout(f):
    return dict(nSamples=f.nSamples, nPresamples=f.nPresamples, timebase=f.timebase, divisions=f.subframe_divisions, offset=f.subframe_offset)


def same_file(dest, src, want, data=None):
    """dest holds exactly the records `want` of src (its open reader), in order"""
    check(layout(dest) == layout(src), "record layout", got=layout(dest), expected=layout(src))
    check(dest.nPulses == len(want), "number of records", got=dest.nPulses, expected=len(want))
    check(dest.nPulses * dest.pulse_size_bytes == os.path.getsize(dest.filename) - dest.header_size, "no bytes besides the records")
    for k, i in enumerate(want):
        same(dest.read_trace(k), src.read_trace(i) if data is None else data[i], f"samples of record {k}")
        check(int(dest.subframecount[k]) == int(src.subframecount[i]), "subframe count", record=k, got=int(dest.subframecount[k]), expected=int(src.subframecount[i]))
        check(int(dest.datatimes_raw[k]) == int(src.datatimes_raw[i]), "time", record=k, got=int(dest.datatimes_raw[k]), expected=int(src.datatimes_raw[i]))


def pick(rng, n):
    if n == 0:
        return []
    k = rng.choice([0, 1, n, rng.randint(0, 2 * n)])
    w = [rng.randint(0, n - 1) for _ in range(k)]
    return rng.choice([w, sorted(w), np.array(w, dtype=int), tuple(w)])


def out(rng, e):
    d = rng.choice([os.path.dirname(e["f"]), tmpdir()])
    return os.path.join(d, "out_chan%d.ljh" % e["ch"])


@trial(weight=2, min_runs=60)
def copying(rng):
    e = make(rng)
    h = sha(e["f"])
    src = LJHFile.open(e["f"])
    w = pick(rng, e["n"])
    dest = out(rng, e)
    note(records=list(map(int, w)))
    ljh_copy_traces(e["f"], dest, w)
    same_file(LJHFile.open(dest), src, list(w))
    check(sha(e["f"]) == h, "input unchanged")
    h2 = sha(dest)
    check(raises(OSError, ljh_copy_traces, e["f"], dest, w) and sha(dest) == h2, "an existing file is not overwritten unasked")
    w2 = pick(rng, e["n"])
    ljh_copy_traces(e["f"], dest, w2, overwrite=True)
    same_file(LJHFile.open(dest), src, list(w2))
    try:
        ljh_copy_traces(e["f"], e["f"], w2, overwrite=True)
    except Exception:
        pass
    check(sha(e["f"]) == h, "input unchanged by copying it onto itself")


@trial(weight=2, min_runs=60)
def copy_of_copy_and_append(rng):
    e = make(rng)
    src = LJHFile.open(e["f"])
    h = sha(e["f"])
    w = list(pick(rng, e["n"]))
    d1, d2 = out(rng, e), os.path.join(tmpdir(), "second_chan2.ljh")
    ljh_copy_traces(e["f"], d1, w)
    all_ = list(w)
    for _ in range(rng.randint(1, 3)):
        if rng.maybe(0.3):
            with open(d1, "ab") as fp:            # the writer was interrupted in the middle of a record
                fp.write(bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 15 + 2 * e["ns"]))))
            note(partial_tail_in_destination=True)
        if rng.maybe(0.3):
            ljh_append_traces(e["f"], d1)
            all_ += list(range(e["n"]))
        else:
            a = list(pick(rng, e["n"]))
            ljh_append_traces(e["f"], d1, a)
            all_ += a
    note(records=list(map(int, all_)))
    same_file(LJHFile.open(d1), src, all_)
    check(sha(e["f"]) == h, "input unchanged")
    h1 = sha(d1)
    one = LJHFile.open(d1)
    w2 = list(pick(rng, len(all_)))
    ljh_copy_traces(d1, d2, w2)
    same_file(LJHFile.open(d2), one, w2)
    check(sha(d1) == h1, "input unchanged")


@trial(weight=2, min_runs=60)
def truncating(rng):
    e = make(rng)
    src = LJHFile.open(e["f"])
    h = sha(e["f"])
    dest = out(rng, e)
    seg = rng.choice([None, None, e["psize"], 3 * e["psize"] + 1])
    if not e["new"]:
        check(raises(Exception, ljh_truncate, e["f"], dest, n_pulses=1), "older versions are refused")
        return
    check(raises(Exception, ljh_truncate, e["f"], dest), "one limit must be given")
    check(raises(Exception, ljh_truncate, e["f"], dest, n_pulses=1, timestamp=1.0), "only one limit may be given")
    check(raises(Exception, ljh_truncate, e["f"], e["f"], n_pulses=1) and sha(e["f"]) == h, "truncating onto itself is refused")
    if rng.maybe():
        n = rng.choice([0, 1, e["n"], e["n"] + rng.randint(1, 5), rng.randint(0, e["n"])])
        note(n_pulses=n, segment=seg)
        ljh_truncate(e["f"], dest, n_pulses=n, segmentsize=seg)
        want = list(range(min(n, e["n"])))
    else:
        t = np.sort(rng.np.integers(10**15, 10**15 + 50, e["n"]))
        base.write_ljh(e["f"], e["data"], e["t1"], t, version="2.2.0", presamples=e["pre"])
        h = sha(e["f"])
        src = LJHFile.open(e["f"])
        stamp = (10**15 + rng.randint(-2, 52)) / 1e6 + rng.choice([0, 0.5e-6])
        note(timestamp=stamp, times=t.tolist(), segment=seg)
        ljh_truncate(e["f"], dest, timestamp=stamp, segmentsize=seg)
        want = [i for i in range(e["n"]) if t[i] / 1e6 <= stamp]
    same_file(LJHFile.open(dest), src, want)
    check(sha(e["f"]) == h, "input unchanged")


@trial(weight=2, min_runs=60)
def modifying(rng):
    e = make(rng)
    src = LJHFile.open(e["f"])
    h = sha(e["f"])
    dest = out(rng, e)
    k = rng.randint(0, 65535)
    cb = rng.choice([lambda r: r, lambda r: 0xffff - r, lambda r: r // 2 + 5, lambda r: r[::-1], lambda r: np.asarray(r ^ np.uint16(k))])
    seen = []

    def callback(r):
        seen.append(np.array(r))
        return cb(r)
    with quiet():
        LJHModify(e["f"], dest, callback)
    check(len(seen) == e["n"] and all(np.array_equal(a, b) for a, b in zip(seen, e["data"])), "the callback is given each record once, in order")
    want = [np.asarray(cb(r)) for r in e["data"]]
    same_file(LJHFile.open(dest), src, list(range(e["n"])), data=want)
    with open(e["f"], "rb") as a, open(dest, "rb") as b:
        check(a.read(src.header_size) == b.read(src.header_size), "identical header")
        if not e["new"]:
            for i in range(e["n"]):
                a.seek(src.header_size + i * e["psize"]), b.seek(src.header_size + i * e["psize"])
                check(a.read(6) == b.read(6), "stored time fields", record=i)
    check(sha(e["f"]) == h, "input unchanged")
    h2 = sha(dest)
    with quiet():
        check(raises(ValueError, LJHModify, e["f"], dest, callback) and sha(dest) == h2, "an existing file is not overwritten unasked")
        check(raises(ValueError, LJHModify, e["f"], e["f"], callback, True) and sha(e["f"]) == h, "the input is never the output")
        LJHModify(e["f"], dest, lambda r: r, overwrite=True)
    same_file(LJHFile.open(dest), src, list(range(e["n"])))


@trial(weight=1)
def output_is_the_input(rng):
    """an output name that reaches the input file (same name, other spelling, symbolic or hard link): the input survives"""
    from mass.core.ljh_modify import LJHModify, ljh_copy_traces, ljh_truncate
    e = make(rng, version="2.2.0")
    f = e["f"]
    d, b = os.path.split(f)
    kind = rng.choice(["same", "dot", "symlink", "hardlink", "dirlink"])
    g = {"same": f, "dot": os.path.join(d, ".", b)}.get(kind) or os.path.join(d, "link_chan%d.ljh" % e["ch"])
    if kind == "symlink":
        os.symlink(f, g)
    elif kind == "hardlink":
        os.link(f, g)
    elif kind == "dirlink":
        os.symlink(d, os.path.join(d, "sub"))
        g = os.path.join(d, "sub", b)
    before = open(f, "rb").read()
    op = rng.choice(["modify", "copy", "truncate"])
    note(kind=kind, op=op)
    k = rng.randint(0, e["n"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if op == "modify":
                LJHModify(f, g, lambda r: 65535 - r, overwrite=True)
            elif op == "copy":
                ljh_copy_traces(f, g, list(range(k)), overwrite=True)
            else:
                ljh_truncate(f, g, n_pulses=k)
    except (ValueError, OSError):
        pass
    check(open(f, "rb").read() == before, "the input file was modified", op, kind)
