import os
import numpy as np
from lib import *
from mkdata import write_off, off_records
from mass.off.off import OffFile, recordDtype

VERSIONS = ["0.1.0", "0.2.0", "0.3.0"]
SCALARS = ["recordSamples", "recordPreSamples", "framecount", "unixnano", "pretriggerMean", "residualStdDev"]


def make(rng, n=None, tail=None):
    d = tmpdir()
    p = os.path.join(d, "a_chan1.off")
    v, nb, ns = rng.choice(VERSIONS), rng.choice([3, 3, 4, 5, 8]), rng.choice([4, 7, 16, 33])
    n = rng.choice([0, 1, 2, 5, 40]) if n is None else n
    recs = off_records(rng, n, nb, ns)
    recs["recordSamples"] = rng.np.integers(1, 50, n)
    recs["recordPreSamples"] = np.array([rng.randint(0, s) for s in recs["recordSamples"]], dtype=int)
    extra = {}
    if rng.maybe(0.4):
        extra["Comment"] = rng.choice(["µ-cal Ω²", "plain", "x" * rng.randint(0, 5000), "{\n}\\n", "é" * 40])
    tail = rng.choice([b"", b"", b"\x01", b"\xff" * 11, b"\0" * 43]) if tail is None else tail
    frame = rng.choice(["1e-5", "9.6e-6", "0.25", "1"])
    g = rng.np
    proj, basis = g.normal(size=(nb, ns)), g.normal(size=(ns, nb))
    write_off(p, nb, recs, version=v, projectors=proj, basis=basis, nsamp=ns, frame=frame, extra=extra, tail=b"")
    full = os.path.getsize(p)
    with open(p, "ab") as f:
        f.write(tail)
    note(version=v, nbasis=nb, nsamples=ns, records=n, extra=str(extra)[:60], tail=len(tail))
    return p, v, nb, ns, n, recs, proj, basis, float(frame), tail


def compare(o, v, nb, ns, n, recs, proj, basis, frame, rng):
    check(len(o) == n and o.nRecords == n and o.shape == (n,), "record count", got=(len(o), o.nRecords, o.shape), want=n)
    same(np.asarray(o.projectors), proj, "projectors")
    same(np.asarray(o.basis), basis, "basis")
    for k in SCALARS + (["pretriggerDelta"] if v == "0.3.0" else []):
        same(np.asarray(o[:][k] if n == 0 else o[k]), np.asarray(recs[k]).astype(o.dtype[k]), k)
    co = recs["coefs"]
    for j, k in enumerate(["pulseMean", "derivativeLike", "filtValue"]):
        same(np.asarray(o[k]), co[:, j], k)
    if nb > 3:
        same(np.asarray(o["extraCoefs"]).reshape(n, nb - 3), co[:, 3:], "extra coefficients")
    else:
        check("extraCoefs" not in o.dtype.names, "no extra coefficients for three vectors")
    same(np.asarray(o._mmap_with_coefs["coefs"]), co, "all coefficients together")
    same(np.asarray(o.view(recordDtype(v, nb, descriptive_coefs_names=False))["coefs"]), co, "a view")
    if n:
        a, b = sorted(rng.sample(range(n + 1), 2))
        same(np.asarray(o[a:b]["framecount"]), recs["framecount"][a:b], "slice")
    for i in {0, n - 1, n // 2, -1} if n else ():
        j = i % n
        check(o[i]["framecount"] == recs["framecount"][j] and o[i]["filtValue"] == co[j, 2], "record by index", i=i)
        want = basis @ co[j].astype(float)
        x, y = o.recordXY(i)
        check(np.allclose(y, want, rtol=1e-12, atol=1e-10 * (1 + np.abs(want).max())), "modelled pulse", got=y, want=want, i=i)
        same(np.asarray(o.modeledPulse(i)), y, "modelledPulse is recordXY's")
        s, pre = int(recs["recordSamples"][j]), int(recs["recordPreSamples"][j])
        wt = np.array([(k - pre) * frame for k in range(s)])
        same(x, wt, "sample times", rtol=1e-12)
        same(o.sampleTimes(i), x, "sampleTimes is recordXY's")


@trial(weight=2, min_runs=60)
def read(rng):
    p, v, nb, ns, n, recs, proj, basis, frame, tail = make(rng)
    before = open(p, "rb").read()
    o = OffFile(p)
    compare(o, v, nb, ns, n, recs, proj, basis, frame, rng)
    o.close()
    check(open(p, "rb").read() == before, "the file is unchanged")


def records_bytes(p, v, nb, recs, a, b, rng):
    q = p + ".tmp"
    sub = {k: x[a:b] for k, x in recs.items()}
    z = np.zeros((nb, 2))
    write_off(q, nb, sub, version=v, projectors=z, basis=z.T, nsamp=2, tail=b"")
    sz = os.path.getsize(q)
    write_off(q, nb, {k: x[:0] for k, x in recs.items()}, version=v, projectors=z, basis=z.T, nsamp=2, tail=b"")
    h = os.path.getsize(q)
    write_off(q, nb, sub, version=v, projectors=z, basis=z.T, nsamp=2, tail=b"")
    with open(q, "rb") as f:
        f.seek(h)
        r = f.read()
    os.remove(q)
    return r


@trial(weight=1.5, min_runs=40)
def growth(rng):
    N = rng.randint(2, 30)
    p, v, nb, ns, n, recs, proj, basis, frame, _ = make(rng, N, b"")
    size = os.path.getsize(p)
    body = records_bytes(p, v, nb, recs, 0, N, rng)
    head = size - len(body)
    rs = len(body) // N
    raw = open(p, "rb").read()
    cuts = sorted(rng.sample(range(len(body) + 1), min(4, len(body)))) + [len(body)]
    os.truncate(p, head + cuts[0])
    o = None
    pos = cuts[0]
    for c in cuts:
        with open(p, "ab") as f:
            f.write(raw[head + pos:head + c])
        pos = c
        if o is None:
            o = OffFile(p)
        else:
            o._updateMmap()
        k = c // rs
        note(written=c, records=k)
        compare(o, v, nb, ns, k, {a: b[:k] for a, b in recs.items()}, proj, basis, frame, rng)


@trial(weight=0.5, min_runs=20)
def refusals(rng):
    p, v, nb, ns, n, recs, proj, basis, frame, _ = make(rng, 3, b"")
    raw = open(p, "rb").read()
    kind = rng.randrange(3)
    if kind == 0:
        bad = raw.replace(b'"FileFormat": "OFF"', b'"FileFormat": "LJH"', 1)
    elif kind == 1:
        bad = raw.replace(b'"NumberOfBases": %d' % nb, b'"NumberOfBases": %d' % (nb + 1), 1)
    else:
        bad = raw.replace(b'"FileFormatVersion": "' + v.encode(), b'"FileFormatVersion": "0.9.9', 1)
    check(bad != raw)
    with open(p, "wb") as f:
        f.write(bad)
    check(raises(Exception, OffFile, p), "an inconsistent file is refused", kind=kind)
    with open(p, "wb") as f:
        f.write(raw[:rng.randint(0, 40)])
    check(raises(Exception, OffFile, p), "a file without header is refused")
