"""independent writers of LJH and OFF files (byte layouts from the format documents, not from mass)"""
import json, os, struct, base64
import numpy as np


def ljh_header(version="2.2.0", timebase="1.024000e-05", presamples=4, samples=10, client="DASTARD version 0.2.1", extra=(), eol="\n", offset="1500000000.000000"):
    L = ["#LJH Memorial File Format", f"Save File Format Version: {version}", f"Software Version: {client}", "Software Driver Version: n/a",
         "Date: 01 Jan 2020, 00:00:00 GMT", "Acquisition Mode: 0", "Digitized Word Size in bytes: 2", "Number of Digitizers: 1",
         f"Timestamp offset (s): {offset}", "Digitizer: 1", f"Timebase: {timebase}", f"Presamples: {presamples}", f"Total Samples: {samples}",
         *extra, "#End of Header"]
    return (eol.join(L) + eol).encode()


def write_ljh(path, data, t1=None, t2=None, version="2.2.0", tail=b"", **hdr):
    """data (n,ns) uint16.  v2.2: t1 = subframecount, t2 = posix usec.  v2.1: t1 = ms, t2 = 4us ticks"""
    data = np.asarray(data, dtype="<u2")
    n, ns = data.shape
    hdr.setdefault("samples", ns)
    h = ljh_header(version=version, **hdr)
    t1 = np.zeros(n, dtype=np.int64) if t1 is None else t1
    t2 = np.zeros(n, dtype=np.int64) if t2 is None else t2
    with open(path, "wb") as f:
        f.write(h)
        for i in range(n):
            if tuple(int(x) for x in version.split(".")[:2]) >= (2, 2):
                f.write(struct.pack("<qq", int(t1[i]), int(t2[i])))
            else:
                f.write(struct.pack("<BBI", int(t2[i]), 0, int(t1[i])))
            f.write(data[i].tobytes())
        f.write(tail)
    return h


def write_off(path, nbasis, records, version="0.3.0", projectors=None, basis=None, nsamp=8, frame="1e-5", readout=None, extra=None, tail=b""):
    """records: dict of columns framecount, unixnano, pretriggerMean, pretriggerDelta, residualStdDev, coefs(n,nbasis), recordSamples, recordPreSamples"""
    n = len(records["framecount"])
    if projectors is None:
        projectors = np.arange(nbasis * nsamp, dtype=float).reshape(nbasis, nsamp) / 7
    if basis is None:
        basis = np.arange(nbasis * nsamp, dtype=float).reshape(nsamp, nbasis) / 3
    mi = {"Projectors": {"Rows": nbasis, "Cols": nsamp}, "Basis": {"Rows": nsamp, "Cols": nbasis}, "NoiseStandardDeviation": 1.0,
          "PulseFile": "x", "NoiseFile": "y", "Description": "d"}
    if version == "0.1.0":
        mi["Projectors"]["RowMajorFloat64ValuesBase64"] = base64.encodebytes(projectors.astype("<f8").tobytes()).decode()
        mi["Basis"]["RowMajorFloat64ValuesBase64"] = base64.encodebytes(basis.astype("<f8").tobytes()).decode()
    hd = {"FileFormat": "OFF", "FileFormatVersion": version, "FramePeriodSeconds": float(frame), "NumberOfBases": nbasis, "ModelInfo": mi,
          "ReadoutInfo": readout or {"ColumnNum": 0, "RowNum": 0, "NumberOfColumns": 1, "NumberOfRows": 4, "NumberOfChans": 4},
          "CreationInfo": {"SourceName": "TriangleSimSource"}}
    hd.update(extra or {})
    with open(path, "wb") as f:
        f.write((json.dumps(hd, indent=4, ensure_ascii=False) + "\n").encode())
        if version != "0.1.0":
            f.write(projectors.astype("<f8").tobytes())
            f.write(basis.astype("<f8").tobytes())
        for i in range(n):
            f.write(struct.pack("<iiqq", int(records["recordSamples"][i]), int(records["recordPreSamples"][i]), int(records["framecount"][i]),
                                int(records["unixnano"][i])))
            f.write(struct.pack("<f", records["pretriggerMean"][i]))
            if version == "0.3.0":
                f.write(struct.pack("<f", records["pretriggerDelta"][i]))
            f.write(struct.pack("<f", records["residualStdDev"][i]))
            f.write(np.asarray(records["coefs"][i], dtype="<f4").tobytes())
        f.write(tail)
    return projectors, basis


def off_records(rng, n, nbasis, nsamp=8, fc=None):
    g = rng.np
    fc = np.sort(g.integers(0, 10**6, n)) if fc is None else fc
    return dict(framecount=np.asarray(fc, dtype=np.int64), unixnano=np.asarray(fc, dtype=np.int64) * 10000 + 1_500_000_000_000_000_000,
                pretriggerMean=g.integers(-1000, 1000, n).astype(np.float32), pretriggerDelta=g.normal(size=n).astype(np.float32),
                residualStdDev=np.abs(g.normal(size=n)).astype(np.float32), coefs=g.normal(size=(n, nbasis)).astype(np.float32) * 100,
                recordSamples=np.full(n, nsamp), recordPreSamples=np.full(n, nsamp // 2))


def record(rng, n, ns, pre):
    """records of all kinds: pulses, flat, noise, falling, peak before the trigger, large steps, full scale"""
    g = rng.np
    out = []
    base0 = rng.choice([0, 30, 1000, 20000, 60000])
    t = np.arange(ns) - pre
    shape = np.where(t >= 0, np.exp(-t / 6.0) - np.exp(-(t + 0.5) / 1.5), 0)
    for _ in range(n):
        b = base0 if rng.maybe(0.7) else rng.choice([0, 5, 1000, 20000, 65000])
        k = rng.randrange(8)
        x = np.full(ns, float(b)) + (g.normal(0, rng.choice([0.3, 3, 20]), ns) if k != 1 else 0)
        if k in (0, 2, 3):
            x += rng.choice([3, 200, 5000]) * shape
        if k == 4:
            x[pre:] -= rng.choice([1, 50, 3000])
        if k == 5:
            x[rng.randrange(ns)] += rng.choice([1, 1000, 40000])
        if k == 6:
            x = g.integers(0, 65536, ns).astype(float)
        if k == 7:
            x[pre - 1:] += rng.choice([10, 4000])
        out.append(np.clip(np.rint(x), 0, 65535))
    return np.array(out, dtype=np.uint16).reshape(n, ns)
