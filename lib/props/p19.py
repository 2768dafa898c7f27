"""P19: numpy views keep sharing memory with the same parts of the same arrays."""

import bz2
import zlib

import jsonpickle.ext.numpy as jn
import npgen
import numpy as np
import vpfix as F
from api import decode, encode
from core import Scenario, check

RULE = (
    "Documents with several arrays and chains of views of them: slices with positive and negative steps, transposes, reshapes, "
    "diagonals, broadcasts, fields, reinterpreted dtypes, real and imaginary parts. After decoding, each array equals its original, "
    "and the same random writes made through the same array on both sides leave all arrays equal, so every aliased byte is the same. "
    "Distinct by kinds of views, dtypes and settings."
)
REQUIRED = ("arrays_compared", "views", "writes", "aliased_pairs", "separate_pairs", "fortran_bases", "buffer_views", "copies")
ASSUMPTIONS = ["the owner of the memory is contiguous", "a view is not writeable when its owner is read-only"]

SETTINGS = [(t, c) for t in (0, 5, 16, None) for c in (zlib, bz2, None)]
BASE_SHAPES = ((1,), (4,), (8,), (16,), (24,), (2, 3), (4, 6), (3, 4), (4, 4), (2, 3, 4), (1, 5), (6, 1))


class settings:
    def __init__(self, t, c, mode="raise"):
        self.kw = dict(ndarray_mode=mode, ndarray_size_threshold=t, ndarray_compression=c)

    def __enter__(self):
        jn.register_handlers(**self.kw)

    def __exit__(self, *a):
        jn.unregister_handlers()


def step(r, a):
    """A view of a and the name of its kind."""
    ops = ["slice", "slice", "slice", "neg", "T", "newaxis", "same", "empty"]
    if a.ndim >= 2:
        ops += ["swap", "diag", "item0", "flatT"]
    if a.ndim == 0:
        ops = ["same", "newaxis", "T"]
    if a.dtype.names:
        ops += ["field"] * 3
    if a.dtype.kind == "c":
        ops += ["real", "imag"]
    if a.flags.c_contiguous and a.size:
        ops += ["reshape"] * 2
        if a.dtype.kind in "iuf" and a.dtype.itemsize <= 8 or a.dtype.kind == "M":
            ops += ["reinterpret"] * 2
    if a.dtype.kind in "iu" or a.dtype.names and "U" not in str(a.dtype):
        ops += ["swapbytes"]
    ops += ["broadcast", "readonly", "window"]
    k = r.choice(ops)
    if k == "slice":
        idx = []
        for n in a.shape:
            lo = r.randrange(0, n + 1) if n else 0
            hi = r.randrange(lo, n + 1)
            idx.append(slice(lo, max(hi, min(lo + 1, n)), r.choice((None, 1, 2, 3))))
        return k, a[tuple(idx)]
    if k == "neg":
        return k, a[tuple(slice(None, None, r.choice((-1, -2, 1))) for _ in a.shape)]
    if k == "T":
        return k, a.T
    if k == "newaxis":
        return k, a[np.newaxis] if r.random() < 0.5 else a[..., np.newaxis]
    if k == "same":
        return k, a[...]
    if k == "empty":
        return k, a[:0]
    if k == "swap":
        return k, a.swapaxes(0, -1)
    if k == "diag":
        d = np.diagonal(a)
        return k, d
    if k == "item0":
        return (k, a[r.randrange(a.shape[0])]) if a.shape[0] else (k, a[...])
    if k == "flatT":
        return k, a.T[:1]
    if k == "field":
        return k, a[r.choice(a.dtype.names)]
    if k == "real":
        return k, a.real
    if k == "imag":
        return k, a.imag
    if k == "reshape":
        return k, a.reshape(r.choice(((-1,), (1, -1), (-1, 1), a.shape + (1,))))
    if k == "reinterpret":
        n = a.dtype.itemsize
        cands = ["u1", "i1", "S1", "V1"] + (["u%d" % n, "i%d" % n] if n in (1, 2, 4, 8) else []) + (["M8[s]", "m8[us]"] if n == 8 else [])
        try:
            return k, a.view(r.choice(cands))
        except (TypeError, ValueError):
            return "same", a[...]
    if k == "swapbytes":
        return k, a.view(a.dtype.newbyteorder("S"))
    if k == "broadcast":
        b = np.broadcast_to(a, (2,) + a.shape)
        return (k, b) if isinstance(b.base, np.ndarray) else ("same", a[...])
    if k == "window":
        if a.ndim == 1 and a.size >= 3:
            return k, np.lib.stride_tricks.as_strided(a, (a.size - 1, 2), (a.strides[0], a.strides[0]))
        return "same", a[...]
    b = a[...]
    b.flags.writeable = False
    return "readonly", b


def owner(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def owned(r):
    """A contiguous array that owns its memory, in which every byte matters."""
    while True:
        d = npgen.dtype(r, obj=True)
        if d.kind in "gG" or d.itemsize > 16 and d.kind in "fc" or (d.names and "offsets" in str(d)):
            continue
        a = np.zeros(r.choice(BASE_SHAPES), d, order=r.choice("CCF"))
        npgen.fill(r, a)
        # one fixed pattern for NaN
        for x in npgen.leaves(a):
            if x.dtype.kind == "f":
                x[np.isnan(x)] = np.nan
        return a


def related(a, b):
    """Whether two arrays overlap in memory, by bounds of the same owner."""
    return bool(a.size and b.size) and np.shares_memory(a, b)


def write(r, pairs, mon):
    """The same write through the same array on both sides."""
    ok = [(a, b) for a, b in pairs if a.flags.writeable and a.size]
    if not ok:
        return
    a, b = r.choice(ok)
    i = r.randrange(a.size)
    idx = np.unravel_index(i, a.shape)
    v = np.zeros((1,), a.dtype)
    v = npgen.fill(r, v)
    for x in npgen.leaves(v):
        if x.dtype.kind in "f":
            x[np.isnan(x)] = 0.5
    a[idx] = v[0]
    b[idx] = v[0]
    mon.event("writes")


def views(r, mon):
    t, c = r.choice(SETTINGS)
    arrs = []
    kinds = []
    for _ in range(r.randrange(1, 4)):
        a = owned(r)
        arrs.append(a)
        kinds.append("own" + ("F" if not a.flags.c_contiguous else ""))
        if not a.flags.c_contiguous:
            mon.event("fortran_bases")
    for _ in range(r.randrange(1, 7)):
        k, v = step(r, r.choice(arrs))
        if not isinstance(v, np.ndarray):
            continue
        o = owner(v)
        if type(o.base) is not type(None) or not o.flags.forc:
            continue
        mon.event("views")
        arrs.append(v)
        kinds.append(k)
    keep = [a for a in arrs if r.random() < 0.8] or arrs[:1]
    r.shuffle(keep)
    extra = [7]
    doc = [extra]
    for a in keep:
        doc.append(r.choice((a, [a], {"a": a})))
    doc.append(extra)
    with settings(t, c):
        j = encode(mon, doc)
        d = decode(mon, j)
    got = [x if isinstance(x, np.ndarray) else x[0] if type(x) is list else x["a"] for x in d[1:-1]]
    check(d[-1] is d[0] and d[0] == [7], "a reference after the views leads to the wrong object", document=j, got=d[-1])
    pairs = list(zip(keep, got))
    for n, (a, b) in enumerate(pairs):
        npgen.same_array(mon, a, b, f"array {n} of {len(pairs)}: {a.dtype} {a.shape} {a.strides}")
        check(a.strides == b.strides or not a.size or a.size == 1 or (a.base is None) or tuple(s for s, n in zip(a.strides, a.shape) if n > 1) == tuple(s for s, n in zip(b.strides, b.shape) if n > 1), "strides of a view changed", want=a.strides, got=b.strides)
    for n, (a, b) in enumerate(pairs):
        for a2, b2 in pairs[:n]:
            w = related(a, a2)
            check(related(b, b2) == w, f"{'shared' if w else 'separate'} memory became {'separate' if w else 'shared'}", one=a, other=a2, document=j)
            check((a is a2) == (b is b2), "identity of arrays changed")
            mon.event("aliased_pairs" if w else "separate_pairs")
    for n in range(r.randrange(1, 8)):
        write(r, pairs, mon)
        for m, (a, b) in enumerate(pairs):
            npgen.same_array(mon, a, b, f"array {m} after write {n}")
    mon.sig("views", tuple(sorted(kinds)), t, c is None, tuple(str(a.dtype) for a in keep), tuple(a.shape for a in keep))


def buffers(r, mon):
    """Arrays over bytes, bytearrays, memoryviews and other buffers: equal contents and the layout kept."""
    import array
    import io
    import mmap

    t, c = r.choice(SETTINGS)
    n = r.choice((8, 24, 48, 96))
    raw = r.randbytes(n)
    kind = r.choice(("bytes", "bytearray", "memoryview", "array", "bytesio", "mmap"))
    if kind == "bytes":
        buf = raw
    elif kind == "bytearray":
        buf = bytearray(raw)
    elif kind == "memoryview":
        buf = memoryview(raw)
    elif kind == "array":
        buf = array.array("B", raw)
    elif kind == "mmap":
        buf = mmap.mmap(-1, n)
        buf[:] = raw
    else:
        buf = io.BytesIO(raw).getbuffer()
    d = np.dtype(r.choice(("u1", "i4", "<i2", ">i4", "S4", "V8", [("a", "u1"), ("b", ">u2"), ("c", "S1")], [("x", "i4"), ("y", "u1", (4,))], "M8[s]")))
    off = r.choice((0, d.itemsize))
    a = np.frombuffer(buf, dtype=d, offset=off)
    extra = [3]
    v = a[:: r.choice((1, 2, -1))] if r.random() < 0.5 else a
    doc = [extra, v, extra]
    with settings(t, c, "ignore"):
        j = encode(mon, doc)
        got = decode(mon, j)
    check(got[2] is got[0] and got[0] == [3], "a reference after the view leads to the wrong object", document=j, got=got[2])
    npgen.same_array(mon, v, got[1], f"{kind} {d} offset {off}", flags=False)
    mon.event("buffer_views")
    mon.sig("buffer", kind, str(d), off, n, t, v.shape)
    del v, a


class Iface:
    """An array-like whose memory jsonpickle cannot store by reference."""

    def __init__(self, arr):
        self.arr = arr
        self.__array_interface__ = arr.__array_interface__


def copies(r, mon):
    """Arrays over memory jsonpickle does not know: warn, raise or copy, as asked."""
    import warnings

    src = npgen.fill(r, np.zeros(r.choice(((4,), (3, 5), (24,))), r.choice(("i4", "f8", "u1", "S3", ">i2"))))
    if r.random() < 0.5:
        a = np.asarray(Iface(src))
    else:
        # owner that is not contiguous
        a = np.ndarray(src.shape, src.dtype)
        big = np.zeros(tuple(2 * n for n in src.shape), src.dtype)
        strided = big[tuple(slice(None, None, 2) for _ in src.shape)]
        strided[...] = src
        a = np.asarray(Iface(strided))
    mode = r.choice(("warn", "raise", "ignore"))
    t, c = r.choice(SETTINGS)
    if isinstance(a.base, np.ndarray) or a.base is None:
        return
    with settings(t, c, mode), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            j = encode(mon, [a, 1])
        except ValueError as e:
            check(mode == "raise", f"mode {mode} raised {e}")
            j = None
        said = any("deep copy" in str(x.message) for x in w)
        check(said == (mode == "warn"), f"mode {mode}: warned {said}")
        check(j is None or mode != "raise", "mode raise did not raise", array=a)
        if j is not None:
            npgen.same_array(mon, np.array(a), decode(mon, j)[0], "copy", flags=False)
    mon.event("copies")
    mon.sig("copies", mode, a.dtype.str, a.shape, t, a.flags.c_contiguous)


SCENARIOS = [Scenario("views", views, 9000), Scenario("buffers", buffers, 2500), Scenario("copies", copies, 600)]
