"""Random numpy arrays, dtypes and scalars, and exact comparison."""

import warnings

import iso
import numpy as np
import vpfix as F

from core import check

warnings.simplefilter("ignore")

SIMPLE = ("?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "S5", "S1", "U3", "U1",
          "M8[ns]", "M8[D]", "M8[us]", "M8[Y]", "m8[s]", "m8[ns]", "m8[25s]", "V4", "g", "G")  # fmt: skip
STRUCT = (
    [("a", "i4"), ("b", "f8")],
    [("a", "i4"), ("s", "S3"), ("u", "U2")],
    [("x", "i2", (2,)), ("y", [("z", "f4"), ("w", "?")])],
    [("x", "f4", (2, 3)), ("d", "M8[s]")],
    {"names": ["a", "b"], "formats": ["i4", "i8"], "offsets": [4, 16], "itemsize": 32},
    [("café x", "u1"), ("b'q\"", "c8")],
    [("one", "u8")],
)
SHAPES = ((), (1,), (0,), (2,), (3,), (16,), (17,), (20,), (40,), (2, 3), (5, 7), (1, 1), (0, 3), (3, 0, 2), (2, 1, 3), (2, 3, 4), (4, 4), (2, 2, 2, 3))


LARGE = ((65,), (100,), (101,), (257,), (1025,), (4100,), (33, 7), (101, 3), (10, 10, 10))


def dtype(r, obj=False, struct=True):
    k = r.random()
    if obj and k < 0.08:
        return np.dtype(object)
    if struct and k < 0.25:
        d = np.dtype(r.choice(STRUCT))
    else:
        d = np.dtype(r.choice(SIMPLE))
    if r.random() < 0.3:
        d = d.newbyteorder(r.choice("<>="))
    return d


def fill(r, a):
    """Fill an array in place, element by element of each field."""
    d = a.dtype
    if d.names:
        for n in d.names:
            fill(r, a[n])
        return a
    n = a.size
    if d == object:
        plain = (None, 1, "x", 1.5, "é", True, -7, "", float("inf"), 2**70)
        rich = r.random() < 0.4 and a.ndim
        vals = [r.choice(plain) if not rich or r.random() < 0.5 else r.choice(([1, [2]], (1, "t"), {"k": [3]}, 1j, b"\xff", [], {4}, F.DC([5], "d"), F.Plain, [[1], [2]], np.int8(5))) for _ in range(n)]
    elif d.kind == "b":
        vals = [r.random() < 0.5 for _ in range(n)]
    elif d.kind in "iu":
        i = np.iinfo(d)
        vals = [r.choice((0, 1, int(i.min), int(i.max), r.randrange(int(i.min), int(i.max)))) for _ in range(n)]
    elif d.kind in "f":
        vals = [r.choice((0.0, -0.0, 1.5, float("inf"), float("nan"), 0.1, 1e-5, -2.25, r.uniform(-9, 9))) for _ in range(n)]
    elif d.kind == "c":
        vals = [complex(r.choice((0.0, 1.5, -2.25, r.uniform(-9, 9))), r.choice((0.0, 0.1, float("inf")))) for _ in range(n)]
    elif d.kind == "S":
        vals = [r.choice((b"", b"a", b"a\0b", b"\xff\xfe", b'"\\')) for _ in range(n)]
    elif d.kind == "U":
        vals = [r.choice(("", "a", "é", "ab", "\U0001f600", '"\\', "\0b")) for _ in range(n)]
    elif d.kind in "Mm":
        lim = {"D": 10**6, "Y": 5000}.get(np.datetime_data(d)[0], 10**9)
        vals = [r.choice((0, 1, -1, r.randrange(-lim // 10, lim), np.iinfo(np.int64).min)) for _ in range(n)]
        vals = np.array(vals, dtype="i8").view(d.newbyteorder("=")) if n else vals
    elif d.kind == "V":
        vals = [np.void(r.randbytes(d.itemsize)) for _ in range(n)]
    else:
        raise AssertionError(d)
    for i in range(n):
        a.flat[i] = vals[i]
    return a


def array(r, obj=True, struct=True, shapes=SHAPES):
    d = dtype(r, obj, struct)
    a = np.zeros(r.choice(shapes if r.random() < 0.96 else LARGE), d, order=r.choice("CCF"))
    fill(r, a)
    if r.random() < 0.15:
        a.flags.writeable = False
    return a


def scalar(r):
    """A numpy scalar in native byte order."""
    while True:
        d = dtype(r)
        d = d.newbyteorder("=")
        a = fill(r, np.zeros((1,), d))
        return a[0]


def leaves(a):
    """The array, or the arrays of its leaf fields."""
    if a.dtype.names:
        for n in a.dtype.names:
            yield from leaves(a[n])
    else:
        yield a


def same_values(a, b, what):
    for x, y in zip(leaves(a), leaves(b)):
        if x.dtype == object:
            for p, q in zip(x.ravel().tolist(), y.ravel().tolist()):
                if isinstance(p, np.generic):
                    check(type(p) is type(q) and p == q, f"{what}: objects changed", want=p, got=q)
                else:
                    diff = iso.differs(p, q)
                    check(not diff, f"{what}: objects changed: {diff}", want=x, got=y)
        elif x.dtype.kind in "fc":
            ok = np.array_equal(x, y, equal_nan=True) and np.array_equal(np.signbit(x.real), np.signbit(y.real)) and np.array_equal(np.signbit(x.imag), np.signbit(y.imag))
            check(ok, f"{what}: numbers changed", want=x, got=y)
        else:
            check(x.tobytes() == y.tobytes(), f"{what}: contents changed", want=x, got=y)


def same_array(mon, a, b, what, flags=True):
    check(type(b) is type(a), f"{what}: {type(a).__name__} became {type(b).__name__}", got=b)
    check(b.dtype == a.dtype and b.dtype.str == a.dtype.str, f"{what}: dtype {a.dtype} became {b.dtype}", got=b)
    check(b.shape == a.shape, f"{what}: shape {a.shape} became {b.shape}", want=a, got=b)
    same_values(a, b, what)
    if flags:
        check(a.flags.writeable == b.flags.writeable, f"{what}: writeable {a.flags.writeable} became {b.flags.writeable}")
    mon.event("arrays_compared")
    mon.event("elements_compared", a.size)
