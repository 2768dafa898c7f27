"""Thin wrappers around the public API that count what the monitors see."""

from __future__ import annotations

import contextlib
import io
import sys
import warnings

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

import iso
from core import Violation, check, short


def encode(mon, obj, **kw):
    j = jsonpickle.encode(obj, **kw)
    check(type(j) is str, f"encode returned {type(j).__name__} instead of text", value=obj)
    mon.last = j
    mon.event("documents_encoded")
    mon.event("document_chars", len(j))
    n = j.count('"py/id"')
    if n:
        mon.event("references_written", n)
    return j


def decode(mon, j, **kw):
    d = jsonpickle.decode(j, **kw)
    mon.event("documents_decoded")
    return d


def compare(mon, a, b, j=None, **kw):
    try:
        w = iso.same(a, b, **kw)
    except Violation as e:
        if j is not None:
            e.detail["document"] = j
        raise
    mon.event("nodes_compared", w.visited)
    mon.event("identities_confirmed", w.shared)
    return w


def roundtrip(mon, obj, enc=None, dec=None, **kw):
    """encode, decode, compare; returns (document, decoded)."""
    try:
        j = encode(mon, obj, **(enc or {}))
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"encode raised {type(e).__name__}: {short(str(e), 200)}", value=obj, options=enc) from e
    try:
        d = decode(mon, j, **(dec or {}))
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"decode raised {type(e).__name__}: {short(str(e), 200)}", document=j, options=dec) from e
    compare(mon, obj, d, j, **kw)
    return j, d


def flat_roundtrip(mon, obj, **kw):
    """The same without going through JSON text."""
    f = Pickler().flatten(obj)
    mon.event("flattened")
    d = Unpickler().restore(f)
    mon.event("restored")
    compare(mon, obj, d, None, **kw)
    return f, d


@contextlib.contextmanager
def quiet():
    """Silence warnings and output of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


@contextlib.contextmanager
def warnings_seen():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        yield w


def rand_format(r):
    """Options that must not change what a document means."""
    kw = {}
    if r.random() < 0.3:
        kw["indent"] = r.choice((0, 1, 2, 4))
    if r.random() < 0.3:
        kw["separators"] = r.choice(((",", ":"), (", ", ": "), (" , ", " : ")))
    if r.random() < 0.3:
        kw["use_base85"] = True
    return kw
