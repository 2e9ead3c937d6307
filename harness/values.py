"""Encoding of Python cell values into the specification's value domain (spec/Values.tla) and back."""
import datetime, math, numbers, re
import numpy as np, pandas as pd

LIM = 2 ** 29


def V(k, n=0, s=""):
    return {"k": k, "n": n, "s": s}


NULL = V("null")
PINF, MINF = V("inf", 1), V("inf", -1)


def num(q):
    return V("num", q)


def intv(i):
    return V("num", 4 * i)


def st(s):
    return V("str", 0, s)


def boolv(b):
    return V("bool", int(bool(b)))


def date(s):
    return V("date", 0, s)


class Junk(list):
    """an argument that is neither number, string, boolean nor null"""
    def __init__(self, kind):
        list.__init__(self, [kind])
        self.kind = kind


def enc(x):
    """Python value -> specification value (total)."""
    try:
        if x is None or x is pd.NaT:
            return V("null")
        if isinstance(x, (bool, np.bool_)):
            return V("bool", int(x))
        if isinstance(x, numbers.Number) and not isinstance(x, complex):
            f = float(x)
            if math.isnan(f):
                return V("null")
            if math.isinf(f):
                return V("inf", 1 if f > 0 else -1)
            q = f * 4
            if q == int(q) and abs(q) < LIM:
                return V("num", int(q))
            return V("num", int(max(-LIM, min(LIM, math.floor(q)))), repr(f))
        if isinstance(x, str):
            return V("str", 0, str(x))
        if isinstance(x, Junk):
            return V("other", 0, x.kind)
        if isinstance(x, datetime.datetime):
            return V("date", 0, pd.Timestamp(x).isoformat())
        if isinstance(x, np.datetime64):
            return V("null") if np.isnat(x) else V("date", 0, pd.Timestamp(x).isoformat())
        if isinstance(x, (bytes, bytearray, memoryview)):
            return V("other", 0, "bytes:" + bytes(x).hex()[:60])
        return V("other", 0, type(x).__name__ + ":" + re.sub(r" at 0x[0-9a-f]+", "", repr(x))[:60])
    except Exception as e:  # the projection must be total
        return V("other", 0, "unprojectable " + type(x).__name__)


def dec(v):
    """specification value -> Python value."""
    k = v["k"]
    if k == "null":
        return float("nan") if v["s"] == "nan" else None
    if k == "inf":
        return float("inf") * v["n"]
    if k == "bool":
        return bool(v["n"])
    if k == "str":
        return v["s"]
    if k == "date":
        return pd.Timestamp(v["s"])
    if k == "num":
        if v["s"]:
            return float(v["s"])
        return v["n"] // 4 if v["n"] % 4 == 0 else v["n"] / 4
    if k == "other":
        return Junk(v["s"])
    raise ValueError(v)


def norm_in(v):
    """what the value looks like once projected again (hints removed)"""
    return enc(dec(v))
