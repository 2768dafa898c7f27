"""P20: pandas objects round trip exactly with the pandas extension."""

import contextlib
import datetime
import decimal
import warnings

import jsonpickle
import jsonpickle.ext.pandas as jp
import jsonpickle.handlers as H
import numpy as np
import pandas as pd
import vpfix as F
from api import decode, encode
from core import Scenario, Violation, check

warnings.simplefilter("ignore")

RULE = (
    "DataFrames with 0..6 columns of 30 dtypes and 0..60 rows (so that both the text and the compressed form occur), Series of 20 "
    "dtypes, Indexes of ten kinds with names, MultiIndexes on rows and columns, Timestamps with zones, Periods, Intervals; alone, "
    "nested and shared. Compared by pandas' own exact comparison and element by element with types. Distinct by dtypes, labels and sizes."
)
REQUIRED = ("frames", "series", "indexes", "scalars", "compressed", "plain_text", "multi_rows", "multi_columns", "object_columns", "shared", "lifecycles", "old_documents", "wide_frames", "raw_texts")
ASSUMPTIONS = ["column labels are unique", "row labels of a frame have the dtype pandas infers for them", "categories are the sorted values"]

INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
NULL = ("Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64")
TEXT = ("", "a", "b", "é", 'q"\\', "x,y\n", "\U0001f600", "py/object", "NaN", "1", "None")
ZONES = ("UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata")


def stamps(r, n, unit="ns", nat=True):
    v = [r.randrange(-(10**9), 2 * 10**9) * {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[unit] + (r.randrange({"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[unit])) for _ in range(n)]
    a = np.array(v, "i8").view(f"M8[{unit}]") if n else np.array([], f"M8[{unit}]")
    if nat and n > 1 and r.random() < 0.3:
        a[r.randrange(n)] = "NaT"
    return a


def fine(r, n):
    """Timestamps with a part below microseconds, for which pandas infers nanoseconds."""
    return stamps(r, n, "us", nat=False).astype("M8[ns]") + np.timedelta64(r.randrange(1, 1000), "ns")


def obj(r, kind):
    if kind == "mixed":
        return r.choice((None, 1, "x", 1.5, True, "é", -(2**40), float("nan"), float("inf"), -0.0))
    if kind == "nested":
        return r.choice(([1, [2]], {"a": 1, "b": [None]}, (1, "x"), {3}, [], None, "t", np.arange(r.randrange(1, 30)), {"k": (1,)}))
    if kind == "instances":
        return r.choice((decimal.Decimal("1.10"), datetime.date(2020, 1, r.randrange(1, 29)), F.DC([1], "x"), F.Plain, 3, b"\xff", 1j))
    raise AssertionError(kind)


def column(r, n, frame=True):
    """Random column values: (kind, Series)."""
    kinds = list(INTS) + list(NULL) + ["float16", "float32", "float64", "float64", "Float32", "Float64", "bool", "boolean", "complex64", "complex128", "str", "string",
                                       "mixed", "nested", "instances", "dt", "dt", "td", "tz", "period", "interval", "category"]  # fmt: skip
    k = r.choice(kinds)
    if n == 0 and k in ("period", "interval", "tz", "category"):
        k = "dt"
    if k in INTS:
        i = np.iinfo(k)
        return k, pd.Series([r.choice((int(i.min), int(i.max), 0, 1, r.randrange(100))) for _ in range(n)], dtype=k)
    if k in NULL:
        i = np.iinfo(k.lower())
        return k, pd.Series([r.choice((int(i.min), int(i.max), 0, 1, pd.NA)) for _ in range(n)], dtype=k)
    if k in ("float16", "float32", "float64"):
        a = np.array([r.choice((0.0, -0.0, 0.1, float("nan"), float("inf"), r.uniform(-9, 9), 1e-5)) for _ in range(n)], k)
        return k, pd.Series(a, dtype=k)
    if k in ("Float32", "Float64"):
        return k, pd.Series([r.choice((0.5, 0.1, pd.NA, -2.25)) for _ in range(n)], dtype=k)
    if k == "bool":
        return k, pd.Series([r.random() < 0.5 for _ in range(n)], dtype=bool)
    if k == "boolean":
        return k, pd.Series([r.choice((True, False, pd.NA)) for _ in range(n)], dtype=k)
    if k.startswith("complex"):
        return k, pd.Series([complex(r.choice((0, 1.5, -2)), r.choice((0, 0.25))) for _ in range(n)], dtype=k)
    if k in ("str", "string"):
        return k, pd.Series([r.choice(TEXT + (None,)) for _ in range(n)], dtype=k)
    if k in ("mixed", "nested", "instances"):
        a = np.empty(n, object)
        for i in range(n):
            a[i] = obj(r, k)
        return k, pd.Series(a, dtype=object)
    if k == "dt":
        return k, pd.Series(stamps(r, n, r.choice(("s", "ms", "us", "ns"))))
    if k == "td":
        return k, pd.Series(stamps(r, n, u := r.choice(("s", "ms", "us", "ns"))).view("i8").view(f"m8[{u}]") if n else np.array([], "m8[ns]"))
    if k == "tz":
        return k, pd.Series(pd.DatetimeIndex(stamps(r, n, r.choice(("s", "us", "ns")))).tz_localize("UTC").tz_convert(r.choice(ZONES)))
    if k == "period":
        return k, pd.Series(pd.PeriodIndex([pd.Period(f"{r.randrange(1950, 2050)}-0{r.randrange(1, 10)}", "M") for _ in range(n)], dtype="period[M]"))
    if k == "interval":
        return k, pd.Series(pd.IntervalIndex.from_tuples([(a := r.randrange(9), a + 1) for _ in range(n)], closed=r.choice(("left", "right", "both"))))
    return k, pd.Series([r.choice("abc") for _ in range(n)], dtype="category")


def name(r):
    return r.choice((None, None, "n", "name é", "abc", 5, ("a", 1), ""))


def index(r, n, frame=True):
    """Random index: (kind, Index) with n entries."""
    kinds = ["range", "int", "str", "float", "dt", "tz", "td", "period", "interval", "multi", "mixed", "bool"]
    if not frame:
        kinds += ["u1", "f4", "cat", "emptyobj", "range2"]
    k = r.choice(kinds)
    nm = name(r)
    if n == 0 and frame:
        return "emptyobj", pd.Index([], dtype=object, name=nm)
    if k == "range":
        return k, pd.RangeIndex(n, name=nm)
    if k == "range2":
        return k, pd.RangeIndex(3, 3 + 2 * n, 2, name=nm)
    if k == "int":
        return k, pd.Index([r.randrange(-(2**62), 2**62) for _ in range(n)], dtype="int64", name=nm)
    if k == "str":
        return k, pd.Index([r.choice(TEXT) for _ in range(n)], dtype="str", name=nm)
    if k == "float":
        return k, pd.Index([r.choice((0.5, -1.25, 0.1, r.uniform(0, 1))) for _ in range(n)], dtype="float64", name=nm)
    if k == "dt":
        return k, pd.DatetimeIndex(fine(r, n) if frame else stamps(r, n, r.choice(("ns", "us")), nat=False), name=nm)
    if k == "tz":
        return k, pd.DatetimeIndex(fine(r, n)).tz_localize("UTC").rename(nm)
    if k == "td":
        return k, pd.TimedeltaIndex(np.array([r.randrange(10**12) * 1000 + 1 for _ in range(n)], "m8[ns]"), name=nm)
    if k == "period":
        return k, pd.PeriodIndex([pd.Period(f"{r.randrange(1950, 2050)}-0{r.randrange(1, 10)}", "M") for _ in range(n)], dtype="period[M]", name=nm)
    if k == "interval":
        return k, pd.IntervalIndex.from_tuples([(a := r.randrange(9), a + 1) for _ in range(n)], dtype="interval[int64, right]", name=nm)
    if k == "multi" and n:
        return k, pd.MultiIndex.from_tuples([(r.randrange(5), r.choice("xyz")) for _ in range(n)], names=r.choice(([None, None], ["p", "q"], ["p", None], [1, "é"])))
    if k == "mixed" and n:
        return k, pd.Index([1, "a", 2.5, None, True][: n] + ["x"] * (n - 5) if n > 1 else ["z"], dtype=object if n > 1 else "str", name=nm)
    if k == "bool":
        return k, pd.Index([r.random() < 0.5 for _ in range(n)], dtype=bool, name=nm)
    if k == "u1":
        return k, pd.Index([r.randrange(256) for _ in range(n)], dtype="uint8", name=nm)
    if k == "f4":
        return k, pd.Index([0.5] * n, dtype="float32", name=nm)
    if k == "cat" and n:
        return k, pd.CategoricalIndex([r.choice("abc") for _ in range(n)], name=nm)
    return ("emptyobj", pd.Index([], dtype=object, name=nm)) if n == 0 else ("range", pd.RangeIndex(n, name=nm))


def columns(r, n):
    k = r.choice(("str", "str", "int", "mixed", "tuple", "multi", "stamp", "float", "odd"))
    if n == 0:
        return "none", pd.Index([], dtype=object)
    if k == "str":
        return k, pd.Index([f"c{i}" for i in range(n)], name=r.choice((None, "cn")))
    if k == "int":
        return k, pd.Index(range(10, 10 + n))
    if k == "mixed" and n > 1:
        return k, pd.Index([1, "1", 2.5, "b", None, "é"][:n], dtype=object)
    if k == "multi" or k == "tuple":
        return "multi", pd.MultiIndex.from_tuples([("ab"[i % 2], i) for i in range(n)], names=r.choice(([None, None], ["u", "v"])))
    if k == "stamp":
        return k, pd.DatetimeIndex([pd.Timestamp(f"202{i}-01-01 00:00:00.000000001") for i in range(n)])
    if k == "float":
        return k, pd.Index([i + 0.5 for i in range(n)])
    return "odd", pd.Index(['q"', "\\", "é", "py/object", "a.b", "json://1"][:n])


def same_elements(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        check(type(x) is type(y), f"{what}: element {i}: {type(x).__name__} became {type(y).__name__}", want=x, got=y)
        if isinstance(x, np.ndarray):
            check(x.dtype == y.dtype and x.shape == y.shape and x.tolist() == y.tolist(), f"{what}: array {i} changed", want=x, got=y)
        elif isinstance(x, float) and x != x:
            check(y != y, f"{what}: NaN changed")
        else:
            check((x is y) or repr(x) == repr(y) or x == y, f"{what}: element {i} changed", want=x, got=y)


def same(mon, a, b, what):
    check(type(a) is type(b) or isinstance(a, pd.RangeIndex) and type(b) is pd.Index, f"{what}: {type(a).__name__} became {type(b).__name__}")
    try:
        if isinstance(a, pd.DataFrame):
            pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=False, check_column_type="equiv", check_index_type="equiv")
        elif isinstance(a, pd.Series):
            pd.testing.assert_series_equal(a, b, check_exact=True, check_freq=False, check_index_type="equiv")
        else:
            pd.testing.assert_index_equal(a, b, exact="equiv", check_exact=True)
    except AssertionError as e:
        raise Violation(f"{what}: {str(e)[:300]}", want=a, got=b) from None
    if isinstance(a, pd.DataFrame):
        same_names(a.index, b.index, what)
        same_names(a.columns, b.columns, what)
        same_elements(a.columns.tolist(), b.columns.tolist(), f"{what}: column labels")
        for i in range(a.shape[1]):
            x, y = a.iloc[:, i], b.iloc[:, i]
            check(x.dtype == y.dtype, f"{what}: dtype of column {i}: {x.dtype} became {y.dtype}")
            same_elements(x.tolist(), y.tolist(), f"{what}: column {i} ({x.dtype})")
        same_elements(a.index.tolist(), b.index.tolist(), f"{what}: row labels")
    elif isinstance(a, pd.Series):
        same_names(a.index, b.index, what)
        check(type(a.name) is type(b.name) and a.name == b.name, f"{what}: name {a.name!r} became {b.name!r}")
        same_elements(a.tolist(), b.tolist(), f"{what}: values ({a.dtype})")
        same_elements(a.index.tolist(), b.index.tolist(), f"{what}: labels")
    else:
        same_names(a, b, what)
        same_elements(a.tolist(), b.tolist(), what)


def same_names(a, b, what):
    check(list(a.names) == list(b.names) and list(map(type, a.names)) == list(map(type, b.names)), f"{what}: names {list(a.names)} became {list(b.names)}")


class registered:
    def __enter__(self):
        jp.register_handlers()

    def __exit__(self, *a):
        jp.unregister_handlers()


class raw_text:
    """Texts are written without escapes."""

    def __enter__(self):
        jsonpickle.set_encoder_options("json", ensure_ascii=False)

    def __exit__(self, *a):
        jsonpickle.set_encoder_options("json")


def place(r, mon, v):
    """Encode v somewhere in a document, sometimes twice; returns the decoded v and the text."""
    p = F.Plain()
    p.x = v
    extra = [4]
    k = r.choice(("alone", "list", "dict", "attr", "twice"))
    doc, get = {
        "alone": (v, lambda d: d),
        "list": ([extra, v, extra], lambda d: d[1]),
        "dict": ({"a": extra, "v": v, "b": extra}, lambda d: d["v"]),
        "attr": ([extra, p, extra], lambda d: d[1].x),
        "twice": ([extra, v, [v], extra], lambda d: d[1]),
    }[k]
    kw = {"keys": True} if r.random() < 0.2 else {}
    raw = r.random() < 0.3
    with registered(), raw_text() if raw else contextlib.nullcontext():
        j = encode(mon, doc, **kw)
        d = decode(mon, j, **kw)
    mon.event("raw_texts", raw)
    if k in ("list", "attr", "twice"):
        check(d[-1] is d[0] and d[0] == [4], "a reference after the pandas object leads to the wrong object", document=j[:400], got=d[-1])
    if k == "dict":
        check(d["b"] is d["a"] and d["a"] == [4], "a reference after the pandas object leads to the wrong object", document=j[:400])
    if k == "twice":
        check(d[2][0] is d[1], "the shared pandas object became two")
        mon.event("shared")
    return get(d), j, k


def frames(r, mon):
    n = r.choice((0, 1, 2, 3, 7, 20, 60)) if r.random() < 0.98 else r.choice((101, 130, 300, 1025))
    m = r.choice((0, 1, 2, 3, 6))
    ki, idx = index(r, n)
    kc, cols = columns(r, m)
    data = [column(r, n) for _ in range(m)]
    df = pd.DataFrame({i: s.set_axis(idx) for i, (_, s) in enumerate(data)}, index=idx) if m else pd.DataFrame(index=idx)
    df.columns = cols
    for i, (k, s) in enumerate(data):
        check(df.iloc[:, i].dtype == s.dtype, "generator", want=s.dtype)
    got, j, where = place(r, mon, df)
    same(mon, df, got, f"frame {n}x{m}")
    mon.event("frames")
    mon.event("compressed" if '"comp": true' in j else "plain_text")
    mon.event("multi_rows", ki == "multi")
    mon.event("multi_columns", kc == "multi")
    mon.event("object_columns", sum(k in ("mixed", "nested", "instances") for k, _ in data))
    mon.sig("frame", n, ki, kc, tuple(k for k, _ in data), where)


def wide(r, mon):
    """Frames with hundreds of columns, in long runs of equal dtypes."""
    n, m = r.choice((1, 2)), r.choice((100, 255, 256, 257, 300, 600))
    runs, data = [], {}
    while len(data) < m:
        t = r.choice(("int64", "float64", "bool", "int8"))
        k = min(r.choice((1, 2, 255, 256, 257, m)), m - len(data))
        runs.append((t, k))
        for _ in range(k):
            data[f"c{len(data)}"] = np.array([r.randrange(2) for _ in range(n)], t)
    df = pd.DataFrame(data)
    got, j, where = place(r, mon, df)
    same(mon, df, got, f"frame {n}x{m} with columns {runs}")
    mon.event("wide_frames")
    mon.sig("wide", n, m, tuple(runs), where)


def series(r, mon):
    n = r.choice((0, 1, 2, 5, 17, 60)) if r.random() < 0.98 else r.choice((101, 130, 300, 1025))
    ki, idx = index(r, n, frame=False)
    while True:
        k, s = column(r, n, frame=False)
        if k not in ("nested", "instances"):
            break
    s = pd.Series(s.array, index=idx, name=r.choice((None, "s", "é", 3, ("a", 1))))
    got, j, where = place(r, mon, s)
    same(mon, s, got, f"series {k}")
    mon.event("series")
    mon.sig("series", n, ki, k, where, str(s.name))


def indexes(r, mon):
    n = r.choice((0, 1, 2, 5, 17, 60, 200))
    k, idx = index(r, n, frame=False)
    got, j, where = place(r, mon, idx)
    same(mon, idx, got, f"index {k}")
    mon.event("indexes")
    mon.event("compressed" if '"comp": true' in j else "plain_text")
    mon.sig("index", n, k, where, str(idx.names))


def scalars(r, mon):
    k = r.choice(("ts", "tz", "fixed", "period", "interval", "td", "nat", "na", "interval_ts"))
    t = pd.Timestamp(r.randrange(-(10**18), 2 * 10**18))
    if k == "ts":
        v = t
    elif k == "tz":
        v = t.tz_localize("UTC").tz_convert(r.choice(ZONES))
    elif k == "fixed":
        v = t.tz_localize(datetime.timezone(datetime.timedelta(minutes=r.randrange(-700, 700))))
    elif k == "period":
        v = pd.Period(t, r.choice(("D", "M", "Q", "Y", "W", "h", "min", "s", "Q-JAN", "W-WED", "B", "2D", "3M")))
    elif k == "interval":
        a = r.choice((0, 0.5, -3))
        v = pd.Interval(a, a + r.randrange(5), closed=r.choice(("left", "right", "both", "neither")))
    elif k == "interval_ts":
        v = pd.Interval(t, t + pd.Timedelta(r.randrange(10**9)), closed=r.choice(("left", "right", "both", "neither")))
    elif k == "td":
        v = pd.Timedelta(r.randrange(-(10**18), 10**18))
    elif k == "nat":
        v = pd.NaT
    else:
        v = pd.NA
    got, j, where = place(r, mon, v)
    check(type(got) is type(v), f"{k}: {type(v).__name__} became {type(got).__name__}")
    check(got is v or got == v and repr(got) == repr(v), f"{k} changed", want=v, got=got)
    mon.event("scalars")
    mon.sig("scalar", k, str(v), where)


TYPES = (pd.DataFrame, pd.Series, pd.Index, pd.RangeIndex, pd.DatetimeIndex, pd.PeriodIndex, pd.MultiIndex, pd.Timestamp, pd.Period, pd.Interval, np.ndarray, np.float64, type(np.dtype("i4")))


def lifecycle(r, mon):
    check(not any(H.get(t) for t in TYPES), "pandas handlers are registered already")
    done = []
    try:
        for _ in range(r.randrange(1, 6)):
            done.append(r.random() < 0.6)
            (jp.register_handlers if done[-1] else jp.unregister_handlers)()
            got = [H.get(t) is not None for t in TYPES]
            check(got == [done[-1]] * len(TYPES), f"handlers after {done}: {got}")
            mon.event("lifecycles")
    finally:
        jp.unregister_handlers()
    mon.sig("life", tuple(done))


def old(r, mon):
    """Documents in the csv form used before version 3.4."""
    import json

    n = r.randrange(1, 8)
    df = pd.DataFrame({"i": [r.randrange(99) for _ in range(n)], "f": [r.uniform(0, 1) for _ in range(n)], "s": [r.choice(("a", "b c", 'q"', "x,y")) for _ in range(n)],
                       "d": pd.to_datetime([f"2020-01-{r.randrange(1, 29):02}" for _ in range(n)]).astype("M8[ns]"), "t": pd.to_timedelta([r.randrange(9) for _ in range(n)], unit="s").astype("m8[ns]"),
                       "c": [complex(r.randrange(4), 2) for _ in range(n)]})  # fmt: skip
    with registered():
        idx = encode(mon, pd.RangeIndex(n))
        doc = {"py/object": "pandas.DataFrame" if r.random() < 0.5 else "pandas.core.frame.DataFrame", "values": df.to_csv(index=False), "txt": True,
               "meta": {"dtypes": {"i": "int64", "f": "float64", "s": "object", "d": "datetime64[ns]", "t": "timedelta64[ns]", "c": "complex128"}, "index": idx, "column_level_names": [None], "header": [0]}}  # fmt: skip
        got = decode(mon, json.dumps(doc))
    check(isinstance(got, pd.DataFrame) and list(got.columns) == list(df.columns) and got.shape == df.shape, "the frame of an old document changed", got=got)
    for c in df.columns:
        same_elements([x for x in df[c]], [x for x in got[c]], f"column {c} of an old document") if c != "f" else check(np.allclose(df[c], got[c]), "floats changed")
    mon.event("old_documents")
    mon.sig("old", n, df["i"].tolist())


def _rt(v):
    with registered():
        return jsonpickle.decode(jsonpickle.encode(v))


def _null():
    df = pd.DataFrame({"a": pd.Series([pd.NaT], dtype="m8[ns]")})
    check(_rt(df)["a"].dtype == df["a"].dtype, "dtype of an empty column changed")


def _dups():
    df = pd.DataFrame([[1, 2]], columns=["a", "a"])
    try:
        same(None, df, _rt(df), "frame")
    except AttributeError as e:
        raise Violation(f"frame with equal column labels: {e}") from None


def _labels():
    df = pd.DataFrame({"a": [1]}, index=pd.Index([1], dtype="uint8"))
    check(_rt(df).index.dtype == df.index.dtype, "dtype of the row labels changed")


def _categories():
    s = pd.DataFrame({"a": pd.Categorical(["x"], categories=["y", "x"], ordered=True)})
    check(_rt(s)["a"].dtype == s["a"].dtype, "categories changed")


FINDINGS = {"null-columns": _null, "equal-labels": _dups, "label-dtypes": _labels, "categories": _categories}

SCENARIOS = [Scenario("frames", frames, 3000), Scenario("wide", wide, 60), Scenario("series", series, 3000), Scenario("indexes", indexes, 4000), Scenario("scalars", scalars, 3000), Scenario("lifecycle", lifecycle, 300), Scenario("old", old, 300)]
