import os, struct, io, contextlib
from fractions import Fraction
import numpy as np
from lib import *
from mkdata import write_ljh, ljh_header
import mass
from mass.core.files import LJHFile, read_ljh_header
from mass.core.channel import PulseRecords, NoiseRecords

TB = ["1.024000e-05", "9.6e-06", "7.68e-06", "5.12e-6", "1.536e-05", "1.0E-5", "0.00002", "3.072e-05", "9.6154e-06", "4e-06"]


def layout(rng):
    """random header items -> (kwargs for the writer, expected values)"""
    das = rng.maybe(0.6)
    client = rng.choice(["DASTARD version 0.2.1", "DASTARD", "MASS-generated LJH file, MASS version 0.8"]) if das else rng.choice(["MATTER Client 1.0.0", "XCALDAQ", "unknown"])
    pre, ns = rng.randint(0, 20), rng.randint(1, 30)
    ex, off, nrows = [], 0, 1
    if rng.maybe(0.5):
        off = rng.randint(0, 9)
        ex.append(f"Row number (from 0-{rng.randint(9, 31)} inclusive): {off}")
    if rng.maybe(0.5):
        nrows = rng.randint(1, 40)
        ex.append(f"Number of rows: {nrows}")
        ex.append("Number of columns: 2")
    div = nrows
    if rng.maybe(0.5):
        src = rng.choice(["Abaco", "Lancero", "Abaco: 2 rings", "Triangles"])
        ex.append(f"Data source: {src}")
        if "Abaco" in src:
            off, div = 0, 64
    if rng.maybe(0.3):
        div = rng.randint(1, 100)
        ex.append(f"Subframe divisions: {div}")
    if rng.maybe(0.3):
        off = rng.randint(0, 60)
        ex.append(f"Subframe offset: {off}")
    for k in range(rng.choice([0, 0, 1, 3])):
        ex.append(rng.choice(["no colon here", "Dummy: 1", "Note: a:b:c", "", "# comment", "X-pos: 3.5"]))
    rng.shuffle(ex)
    if rng.maybe(0.1):
        ex += [f"pad{k}: {k}" for k in range(225)]
    tb = rng.choice(TB)
    return dict(client=client, presamples=pre, timebase=tb, extra=tuple(ex), eol=rng.choice(["\n", "\r\n"])), \
        dict(pre=pre + (0 if das else 3), ns=ns, off=off, div=div, tb=float(tb), tbs=tb)


def make(rng, version=None, nmax=12):
    version = version or rng.choice(["2.2.0", "2.2.0", "2.2.1", "2.1.0", "2.1.0", "2.0.0"])
    kw, e = layout(rng)
    n = rng.size(nmax)
    data = rng.np.integers(0, 65536, (n, e["ns"])).astype(np.uint16)
    d = tmpdir()
    ch = rng.choice([1, 7, 12, 94932])
    f = os.path.join(d, rng.choice(["run", "b_chan3_x"]) + f"_chan{ch}.ljh")
    new = version >= "2.2"
    if new:
        t1 = rng.np.integers(0, 2**rng.choice([10, 40, 62]), n)
        t2 = rng.np.integers(0, 2**rng.choice([30, 51, 53]), n)
    else:
        t1, t2 = rng.np.integers(0, 2**rng.choice([4, 20, 32]), n), rng.np.integers(0, 250, n)
    psize = (16 if new else 6) + 2 * e["ns"]
    tail = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 0, 1, psize // 2, psize - 1])))
    write_ljh(f, data, t1, t2, version=version, tail=tail, **kw)
    e.update(n=n, data=data, t1=t1, t2=t2, new=new, psize=psize, ch=ch, tail=len(tail), f=f)
    note(version=version, n=n, tail=len(tail), header=kw, times=(t1[:6].tolist(), t2[:6].tolist()))
    return e


def expected_times(e):
    """-> (subframe counts or None where rounding decides, seconds)"""
    if e["new"]:
        return list(e["t1"]), [x / 1e6 for x in e["t2"]]
    p = Fraction(e["tbs"]) * 10**9
    out, sec = [], []
    for ms, us in zip(e["t1"], e["t2"]):
        q = Fraction(int(ms) * 1000000 + int(us) * 4000 - 1) / p
        k = q.numerator // q.denominator
        fr = q - k
        close = fr < Fraction(1, 10**5) or fr > 1 - Fraction(1, 10**5)
        out.append(None if close else (k + 4) * e["div"] + e["off"])
        sec.append(None if close else float((k + 4 + Fraction(e["off"], e["div"])) * Fraction(e["tbs"])))
    return out, sec


def check_records(f, e, inv, msg=""):
    want = ~e["data"] if inv else e["data"]
    same(f.alldata, want, msg + "all samples")
    for i in range(e["n"]):
        same(f.read_trace(i), want[i], msg + f"record {i}")
        same(f[i], want[i], msg + f"indexed record {i}")
    if e["n"]:
        same(f[-1], want[-1], msg + "last record")
    same(f[1:4], want[1:4], msg + "slice")
    same(f[::2], want[::2], msg + "strided slice")
    sf, sec = expected_times(e)
    gsf, gt, graw = f.subframecount, f.datatimes_float, f.datatimes_raw
    for i in range(e["n"]):
        if sf[i] is None:
            continue
        check(int(gsf[i]) == int(sf[i]), msg + "subframe count", record=i, got=int(gsf[i]), expected=int(sf[i]))
        check(abs(gt[i] - sec[i]) <= 1e-15 * abs(sec[i]) * 8 + 1e-12, msg + "time", record=i, got=gt[i], expected=sec[i])
        if e["new"]:
            check(int(graw[i]) == int(e["t2"][i]), msg + "raw time", record=i, got=int(graw[i]))
        else:
            check(abs(int(graw[i]) - sec[i] * 1e6) <= 0.51, msg + "raw time", record=i, got=int(graw[i]), expected=sec[i] * 1e6)
        a, b, tr = f.read_trace_with_timing(i)
        check(int(a) == int(sf[i]) and int(b) == int(graw[i]), msg + "read_trace_with_timing", record=i)
        same(tr, want[i], msg + "trace with timing")


@trial(weight=3, min_runs=60)
def read_file(rng):
    e = make(rng)
    f = LJHFile.open(e["f"])
    check(f.nPulses == e["n"], "number of complete records", got=f.nPulses, expected=e["n"])
    check(f.nSamples == e["ns"] and f.nPresamples == e["pre"], "record and pretrigger length", got=(f.nSamples, f.nPresamples), expected=(e["ns"], e["pre"]))
    check(f.timebase == e["tb"], "sample period", got=f.timebase)
    check(f.subframe_divisions == e["div"] and f.subframe_offset == e["off"], "subframe layout", got=(f.subframe_divisions, f.subframe_offset), expected=(e["div"], e["off"]))
    check(f.channum == e["ch"], "channel", got=f.channum)
    check(f.pulse_size_bytes == e["psize"], "record size")
    same(f.sample_usec, (np.arange(e["ns"]) - e["pre"]) * e["tb"] * 1e6, "sample times", rtol=1e-12)
    check_records(f, e, False)
    f.invert_data = True
    check_records(f, e, True, "inverted: ")
    f.invert_data = False
    check_records(f, e, False, "back to normal: ")
    g = f.copy()
    check_records(g, e, False, "copy: ")


@trial(weight=1.5, min_runs=60)
def segments(rng):
    e = make(rng)
    f = LJHFile.open(e["f"])
    size = rng.choice([None, e["psize"], e["psize"] - 1, e["psize"] + 1, rng.randint(1, 5 * e["psize"]), 3 * e["psize"] + 1])
    note(size=size)
    if size is not None and size < e["psize"]:
        check(raises(ValueError, f.set_segment_size, size), "a segment smaller than a record is refused")
        return
    f.set_segment_size(size) if size is not None else f.set_segment_size()
    check(f.pulses_per_seg >= 1 and f.pulses_per_seg * e["psize"] <= (size or 2**24), "records per segment fit", got=f.pulses_per_seg)
    got = []
    for s in range(f.n_segments):
        a = s * f.pulses_per_seg
        b = min(a + f.pulses_per_seg, f.nPulses)
        check(a <= f.nPulses, "segments start within the records")
        got += list(range(a, b))
    check(got == list(range(e["n"])), "segments cover the records once, in order", got=got, n=e["n"])
    p = PulseRecords(e["f"])
    if size is not None:
        p.set_segment_size(size)
    check((p.n_segments, p.pulses_per_seg, p.segmentsize) == (f.n_segments, f.pulses_per_seg, f.segmentsize), "PulseRecords segments")
    check((p.nPulses, p.nSamples, p.nPresamples, p.timebase, p.subframe_divisions, p.subframe_offset)
          == (f.nPulses, f.nSamples, f.nPresamples, f.timebase, f.subframe_divisions, f.subframe_offset), "PulseRecords layout")


@trial(weight=0.5, min_runs=20)
def header_text(rng):
    """keys keep the last value written, the binary data start after the end-of-header line"""
    eol = rng.choice(["\n", "\r\n"])
    lines, want = ["#LJH Memorial File Format"], {}
    for _ in range(rng.randint(0, 30)):
        k, v = rng.choice(["A", "B c", "D (x)", "Key-1"]), rng.choice(["1", "x:y", "", " padded ", "2.5e-6"])
        if rng.maybe(0.2):
            lines.append("comment without separator")
        else:
            lines.append(f"{k}: {v}")
            want[k.encode()] = v.strip().encode()
    h = (eol.join(lines + ["#End of Header"]) + eol).encode()
    f = os.path.join(tmpdir(), "a_chan1.ljh")
    with open(f, "wb") as fp:
        fp.write(h + b"#End of Header\nB c: 7\n")
    with contextlib.redirect_stdout(io.StringIO()):
        hd, hs = read_ljh_header(f)
    check(hs == len(h), "header size", got=hs, expected=len(h))
    check(dict(hd) == want, "header entries", got=dict(hd), expected=want)


@trial(weight=0.7, min_runs=6)
def group(rng):
    """a TESGroup reads the same records, counts and times, and its segments agree with its files"""
    d = tmpdir()
    kw, e = layout(rng)
    es, fs = [], []
    n = rng.randint(1, 9)
    for ch in (1, 3):
        data = rng.np.integers(0, 65536, (n, e["ns"])).astype(np.uint16)
        t1 = np.sort(rng.np.integers(0, 2**40, n))
        t2 = np.sort(rng.np.integers(0, 2**50, n))
        f = os.path.join(d, f"run_chan{ch}.ljh")
        write_ljh(f, data, t1, t2, **kw)
        es.append(dict(e, n=n, data=data, t1=t1, t2=t2)), fs.append(f)
    with contextlib.redirect_stdout(io.StringIO()):
        g = mass.TESGroup(fs)
    for ds, x in zip(g, es):
        same(np.asarray(ds.data[...]), x["data"], "channel samples")
        check((ds.nPulses, ds.nSamples, ds.nPresamples, ds.timebase) == (n, x["ns"], x["pre"], x["tb"]), "channel layout")
        same(np.asarray(ds.subframecount), x["t1"], "channel subframe counts")
        same(np.asarray(ds.times), x["t2"] / 1e6, "channel times")
    p = 16 + 2 * e["ns"]
    size = rng.choice([p, 2 * p, 2 * p + 1, 5 * p])
    g.set_segment_size(size)
    per = size // p
    got = []
    for s in range(g.n_segments):
        a, b = g.segnum2sample_range(s)
        check(g.sample2segnum(a) == s, "segment of a sample", got=g.sample2segnum(a), expected=s)
        got += list(range(a, min(b, n)))
    check(g.pulses_per_seg == per and got == list(range(n)), "the group's segments cover the records once, in order", got=got, n=n, segments=g.n_segments)
