"""P35: objects of other libraries work the same after decoding."""

import datetime
import json
import warnings

import bson
import bson.int64
import bson.tz_util
import dateutil.relativedelta
import dateutil.rrule
import dateutil.tz
import ecdsa
import gen
import jsonpickle
import jsonpickle.ext.gmpy as jg
import jsonpickle.ext.numpy as jn
import numpy as np
import packaging.specifiers
import packaging.version
import requests.structures
import scipy.sparse
import sklearn.cluster
import sklearn.decomposition
import sklearn.ensemble
import sklearn.linear_model
import sklearn.naive_bayes
import sklearn.neighbors
import sklearn.neural_network
import sklearn.pipeline
import sklearn.preprocessing
import sklearn.svm
import sklearn.tree
import sqlalchemy
import sqlalchemy.orm
import vpfix as F
from api import decode, encode, quiet
from core import Scenario, check

RULE = (
    "Objects of scikit-learn (26 kinds of fitted estimators with random data and settings), scipy (sparse matrices), bson, dateutil, "
    "packaging, requests, ecdsa and SQLAlchemy, alone, nested and shared with each other and with plain objects, encoded with the numpy "
    "and gmpy extensions. Decoded objects must give bit for bit the same predictions, values, signatures and columns. Distinct by "
    "kind, settings and place."
)
REQUIRED = ("estimators", "predictions_compared", "matrices", "values", "keys", "rows", "shared", "incremental", "lazy_objects")
ASSUMPTIONS = ["scipy's dok format is left out"]

Base = sqlalchemy.orm.declarative_base()


class Row(Base):
    __tablename__ = "row"
    id = sqlalchemy.Column(sqlalchemy.Integer, primary_key=True)
    name = sqlalchemy.Column(sqlalchemy.Text)
    value = sqlalchemy.Column(sqlalchemy.Float)
    data = sqlalchemy.Column(sqlalchemy.LargeBinary)


class extensions:
    def __enter__(self):
        jn.register_handlers()
        jg.register_handlers()

    def __exit__(self, *a):
        jg.unregister_handlers()
        jn.unregister_handlers()


def place(r, mon, x):
    """Encode x somewhere; returns the decoded x."""
    other = [gen.ratom(r)]
    k = r.choice(("alone", "list", "attr", "twice", "dict"))
    doc, get = {
        "alone": (x, lambda d: d),
        "list": ([other, x, other], lambda d: d[1]),
        "attr": ([other, F.DC(x, other), other], lambda d: d[1].a),
        "dict": ({"a": other, "x": x, "b": other}, lambda d: d["x"]),
        "twice": ([other, x, F.DC(x, other), other], lambda d: d[1]),
    }[k]
    kw = {"keys": True} if r.random() < 0.3 else {}
    with extensions(), quiet():
        j = encode(mon, doc, **kw)
        d = decode(mon, j, **kw)
    if k == "twice":
        check(d[1] is d[2].a and d[2].b is d[0], "shared object became two", kind=type(x).__name__)
        mon.event("shared")
    if k in ("list", "attr", "twice"):
        check(d[0] is d[-1], "a reference past the object leads elsewhere", kind=type(x).__name__)
    if k == "dict":
        check(d["a"] is d["b"], "a reference past the object leads elsewhere", kind=type(x).__name__)
    y = get(d)
    check(type(x) is type(y), f"{type(x).__name__} became {type(y).__name__}")
    return y, k


def bits(a):
    if scipy.sparse.issparse(a):
        a = a.toarray()
    a = np.asarray(a)
    return a.dtype.str, a.shape, a.tobytes()


def data(r):
    n, m = r.randrange(12, 40), r.randrange(1, 5)
    X = np.array([[r.uniform(0, 1) for _ in range(m)] for _ in range(n)], r.choice(("f8", "f8", "f4")))
    y = np.array([i % 3 if r.random() < 0.2 else int(X[i, 0] > 0.5) for i in range(n)])
    y[:2] = 0, 1
    if r.random() < 0.3:
        y = np.array(["no", "yes", "may be"])[y]
    return X, y


def estimator(r):
    sk = sklearn
    rs = r.randrange(100)
    k = r.choice(
        (
            lambda: sk.linear_model.LogisticRegression(C=r.choice((0.1, 1, 10))),
            lambda: sk.linear_model.RidgeClassifier(alpha=r.uniform(0.1, 2)),
            lambda: sk.linear_model.SGDClassifier(max_iter=20, random_state=rs),
            lambda: sk.linear_model.Perceptron(max_iter=20, random_state=rs),
            lambda: sk.tree.DecisionTreeClassifier(max_depth=r.choice((None, 1, 3)), random_state=rs),
            lambda: sk.tree.ExtraTreeClassifier(random_state=rs),
            lambda: sk.ensemble.RandomForestClassifier(r.randrange(1, 4), random_state=rs),
            lambda: sk.ensemble.GradientBoostingClassifier(n_estimators=2, random_state=rs),
            lambda: sk.ensemble.AdaBoostClassifier(n_estimators=2, random_state=rs),
            lambda: sk.svm.SVC(kernel=r.choice(("rbf", "linear", "poly")), gamma="scale"),
            lambda: sk.svm.LinearSVC(random_state=rs, max_iter=100),
            lambda: sk.neighbors.KNeighborsClassifier(r.randrange(1, 6), algorithm="brute"),
            lambda: sk.neighbors.NearestCentroid(),
            lambda: sk.naive_bayes.GaussianNB(),
            lambda: sk.naive_bayes.MultinomialNB(),
            lambda: sk.naive_bayes.BernoulliNB(),
            lambda: sk.neural_network.MLPClassifier((3,), max_iter=5, random_state=rs),
            lambda: sk.pipeline.make_pipeline(sk.preprocessing.StandardScaler(), sk.decomposition.PCA(1), sk.linear_model.LogisticRegression()),
            lambda: sk.preprocessing.StandardScaler(with_mean=r.random() < 0.5),
            lambda: sk.preprocessing.MinMaxScaler((0, r.randrange(1, 4))),
            lambda: sk.preprocessing.PolynomialFeatures(2),
            lambda: sk.preprocessing.KBinsDiscretizer(2, subsample=None),
            lambda: sk.preprocessing.OneHotEncoder(handle_unknown="ignore"),
            lambda: sk.preprocessing.RobustScaler(),
            lambda: sk.decomposition.PCA(1, random_state=rs),
            lambda: sk.cluster.KMeans(2, n_init=1, random_state=rs),
        )
    )
    return k()


def estimators(r, mon):
    X, y = data(r)
    e = estimator(r)
    with quiet():
        e.fit(X, y)
        e2, where = place(r, mon, e)
        names = [n for n in ("predict", "predict_proba", "decision_function", "transform") if hasattr(e, n)]
        for n in names:
            a, b = getattr(e, n)(X), getattr(e2, n)(X)
            check(bits(a) == bits(b), f"{n} of {type(e).__name__} gives something else", want=a, got=b)
            mon.event("predictions_compared", len(X))
        check(repr(e.get_params()) == repr(e2.get_params()) or type(e).__name__ == "Pipeline", f"settings of {type(e).__name__} changed")
    check(names != [], "nothing to compare")
    mon.event("estimators")
    mon.sig("estimator", type(e).__name__, where, X.shape, X.dtype.str, y.dtype.kind)


def matrices(r, mon):
    n, m = r.randrange(1, 8), r.randrange(1, 8)
    a = np.array([[r.choice((0, 0, 1, -2, 3.5)) for _ in range(m)] for _ in range(n)], r.choice(("f8", "f4", "c16", "c8")))
    fmt = r.choice(("csr", "csc", "coo", "lil", "bsr", "dia"))
    x = r.choice((scipy.sparse.csr_matrix, scipy.sparse.csr_array))(a).asformat(fmt)
    y, where = place(r, mon, x)
    check(bits(x) == bits(y) and y.format == fmt, f"{fmt} matrix changed", want=x.toarray(), got=y.toarray())
    check(bits(x @ np.ones(m)) == bits(y @ np.ones(m)), f"products with the {fmt} matrix changed")
    mon.event("matrices")
    mon.sig("matrix", fmt, type(x).__name__, n, m, a.dtype.str, where)


def when(r):
    return datetime.datetime(r.randrange(1990, 2040), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), tzinfo=None)


def value(r):
    """Returns the value and what to compare of it."""
    k = r.randrange(16)
    if k == 0:
        return bson.ObjectId(r.randbytes(12)), str
    if k == 1:
        return bson.int64.Int64(r.randrange(-(2**63), 2**63)), int
    if k == 2:
        return bson.DBRef("c", bson.ObjectId(r.randbytes(12)), r.choice((None, "db")), extra=r.randrange(9)), lambda v: repr(v.as_doc())
    if k == 3:
        return bson.Binary(r.randbytes(r.randrange(9)), r.choice((0, 2, 128))), lambda v: (bytes(v), v.subtype)
    if k == 4:
        return bson.Timestamp(r.getrandbits(31), r.getrandbits(31)), lambda v: (v.time, v.inc)
    if k == 5:
        return bson.Regex(gen.rstr(r), r.randrange(8)), lambda v: (v.pattern, v.flags)
    if k == 6:
        return bson.Decimal128(r.choice(("1.50", "-0", "NaN", "1E+20", "0.1"))), str
    if k == 7:
        return bson.Code("f(" + gen.rstr(r) + ")", {"a": r.randrange(9)}), lambda v: (str(v), v.scope)
    if k == 8:
        return bson.tz_util.FixedOffset(r.randrange(-700, 700), "Z" + str(r.randrange(9))), lambda v: (v.utcoffset(None), v.tzname(None))
    if k == 9:
        tz = r.choice((dateutil.tz.tzoffset("x", r.randrange(-40000, 40000)), dateutil.tz.tzutc(), dateutil.tz.gettz("Europe/Berlin"), bson.tz_util.utc))
        return when(r).replace(tzinfo=tz), lambda v: (v.isoformat(), v.tzname(), v.utcoffset())
    if k == 10:
        w = when(r)
        return dateutil.relativedelta.relativedelta(months=r.randrange(-20, 20), days=r.randrange(99), hour=r.choice((None, 3))), lambda v: w + v
    if k == 11:
        return dateutil.rrule.rrule(r.choice((dateutil.rrule.DAILY, dateutil.rrule.WEEKLY)), count=r.randrange(1, 9), interval=r.randrange(1, 4), dtstart=when(r)), list
    if k == 12:
        return packaging.version.Version(r.choice(("1.0", "2!3.4rc1.post2.dev3+local.1", "0.0.1a5", "1.10"))), lambda v: (str(v), v.release, v > packaging.version.Version("1.5"))
    if k == 13:
        return packaging.specifiers.SpecifierSet(r.choice((">=1,<2", "~=3.1", "!=1.*", ""))), lambda v: [x in v for x in ("1.0", "1.5", "2", "3.2")]
    if k == 14:
        c = requests.structures.CaseInsensitiveDict()
        for i in range(r.randrange(5)):
            c[r.choice(("A", "a", "Content-Type", "x-Y"))] = i
        return c, lambda v: (list(v.items()), v.get("CONTENT-type"))
    return bson.MaxKey() if r.random() < 0.5 else bson.MinKey(), lambda v: v


def values(r, mon):
    x, see = value(r)
    y, where = place(r, mon, x)
    check(see(x) == see(y), f"{type(x).__name__} changed", want=see(x), got=see(y))
    mon.event("values")
    mon.sig("value", type(x).__module__, type(x).__name__, see(x), where)
    if r.random() < 0.2 and not isinstance(x, dateutil.rrule.rrule):
        # documents can be decoded piece by piece while they are parsed
        u = jsonpickle.unpickler.Unpickler()
        z = json.loads(jsonpickle.encode(x, make_refs=False), object_hook=lambda o: u.restore(o, reset=False))
        check(type(z) is type(x), f"{type(x).__name__} decoded piece by piece became {type(z).__name__}")
        mon.event("incremental")


def keys(r, mon):
    curve = r.choice((ecdsa.NIST192p, ecdsa.SECP256k1, ecdsa.Ed25519, ecdsa.NIST256p))
    k = ecdsa.SigningKey.generate(curve=curve, entropy=r.randbytes)
    msg = r.randbytes(20)
    if r.random() < 0.5:
        k2, where = place(r, mon, k)
        check(k2.to_string() == k.to_string(), "secret key changed")
        check(k.get_verifying_key().verify(k2.sign(msg), msg), "signature of the decoded key is not accepted")
    else:
        v = k.get_verifying_key()
        v2, where = place(r, mon, v)
        check(v2.to_string() == v.to_string(), "public key changed")
        check(v2.verify(k.sign(msg), msg), "the decoded key rejects a signature")
        try:
            v2.verify(k.sign(msg), msg + b"x")
        except ecdsa.BadSignatureError:
            pass
        else:
            check(False, "the decoded key accepts a wrong signature")
    mon.event("keys")
    mon.sig("key", curve.name, where, k.to_string()[:2])


_engine = []


def rows(r, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not _engine:
            _engine.append(sqlalchemy.create_engine("sqlite:///:memory:"))
            Base.metadata.create_all(_engine[0])
        with sqlalchemy.orm.Session(bind=_engine[0], expire_on_commit=False) as s:
            x = Row(name=gen.rstr(r).encode("utf-8", "replace").decode(), value=r.uniform(-9, 9), data=r.randbytes(r.randrange(5)))
            s.add(x)
            s.commit()
            y, where = place(r, mon, x)
        for n in ("id", "name", "value", "data"):
            a, b = getattr(x, n), getattr(y, n)
            check(type(a) is type(b) and a == b, f"column {n} changed", want=a, got=b)
        check(sqlalchemy.inspect(y).detached, "the decoded row is not detached")
        check(sqlalchemy.inspect(y).identity == sqlalchemy.inspect(x).identity, "the decoded row has another identity")
    mon.event("rows")
    mon.sig("row", where, x.name, x.data)


class Lazy:
    """Like a mapped object whose other attributes are loaded when they are used."""

    def __getattr__(self, name):
        if not name.startswith("_"):
            raise RuntimeError(f"{name} cannot be loaded")
        raise AttributeError(name)


def lazy(r, mon):
    x = Lazy()
    for n in r.sample(("a", "b", "child", "_c"), r.randrange(1, 4)):
        setattr(x, n, r.choice((gen.ratom(r), [1, None], F.DC(2), {"k": ()})))
    y, where = place(r, mon, x)
    check(sorted(vars(y)) == sorted(vars(x)), "attributes changed", want=vars(x), got=vars(y))
    for n, v in vars(x).items():
        check(type(v) is type(vars(y)[n]), f"attribute {n} changed")
    mon.event("lazy_objects")
    mon.sig("lazy", where, tuple(vars(x)))


SCENARIOS = [
    Scenario("estimators", estimators, 1200),
    Scenario("matrices", matrices, 1500),
    Scenario("values", values, 8000),
    Scenario("keys", keys, 120),
    Scenario("rows", rows, 600),
    Scenario("lazy", lazy, 600),
]
