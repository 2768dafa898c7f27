"""The same values in every process: builds them from seeds, encodes and judges.

Run as a program, it answers one JSON request per line (see P33).
"""

import json
import os
import random
import sys

SETKINDS = ("set", "frozenset", "objset", "setsub", "frozensetsub")


def padded(dtype):
    """Has bytes that are not part of the values, so their content is arbitrary."""
    if dtype.subdtype:
        return padded(dtype.subdtype[0])
    if dtype.names:
        parts = [dtype.fields[n][0] for n in dtype.names]
        return dtype.itemsize != sum(p.itemsize for p in parts) or any(map(padded, parts))
    return dtype.char in "gG"


def build(what, seed):
    """Returns the value and a function that compares it with a decoded one."""
    import gen
    import iso
    import mkcls
    import vpfix as F
    from core import Mon

    r = random.Random(f"{what}/{seed}")

    def same(x, order=True):
        return lambda d, order=order: iso.same(x, d, order=order)

    if what in ("graph", "sets"):
        kinds = None if what == "sets" else [k for k in sorted(gen.KINDS) if k not in SETKINDS]
        x = gen.Graph(r, budget=r.choice((5, 15, 40)), kinds=kinds).make(r.randrange(1, 5))
        return x, same(x)
    if what == "made":
        mkcls.reset()
        made = [mkcls.make(r) for _ in range(r.randrange(1, 4))]
        x = [mkcls.fill(r, *c, lambda: gen.ratom(r)) for c in made]
        x += [c[0] for c in made if "<" not in c[0].__qualname__] + [x[0]]
        return x, same(x)
    if what == "stdlib":
        x = [gen.stdlib_value(r) for _ in range(r.randrange(1, 6))]
        return x, same(x)
    if what == "numpy":
        import npgen

        x = npgen.array(r)
        while padded(x.dtype):
            x = npgen.array(r)
        return F.DC(x, [x]), lambda d, order=True: npgen.same_array(Mon(), x, d.a, f"{x.dtype} array")
    if what == "pandas":
        import pandas as pd
        from props import p20

        n, m = r.choice((0, 1, 3, 8)), r.choice((1, 2, 4))
        idx, cols = p20.index(r, n)[1], p20.columns(r, m)[1]
        data = {}
        while len(data) < m:
            k, s = p20.column(r, n)
            if k != "nested":  # has sets in it
                data[len(data)] = s.set_axis(idx)
        x = pd.DataFrame(data, index=idx)
        x.columns = cols
        return F.DC(x, 1), lambda d, order=True: p20.same(Mon(), x, d.a, "frame")
    raise AssertionError(what)


def answer(q):
    import jsonpickle
    from core import Violation, short

    if q["what"] in ("numpy", "pandas"):
        import jsonpickle.ext.pandas

        jsonpickle.ext.pandas.register_handlers()
    try:
        x, same = build(q["what"], q["seed"])
        kw = q["options"]
        out = {"doc": jsonpickle.encode(x, **kw), "error": None, "detail": None}
        if q.get("doc") is not None:
            keys = {"keys": True} if kw.get("keys") else {}
            try:
                same(jsonpickle.decode(q["doc"], **keys), order=not keys)
            except Violation as e:
                out["error"], out["detail"] = e.msg, short(e.detail)
        return out
    except Exception as e:
        return {"doc": None, "error": f"{type(e).__name__}: {short(str(e), 300)}", "detail": None}
    finally:
        if q["what"] in ("numpy", "pandas"):
            jsonpickle.ext.pandas.unregister_handlers()


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), here]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for first in sys.argv[1:]:
        __import__(first)
    for line in sys.stdin:
        out.write(json.dumps(answer(json.loads(line))) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
