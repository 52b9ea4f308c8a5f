"""HDF5 files that hold symbolic values.

h5py itself is the real library.  A symbolic value is written as a float64 token
of its own (a double nobody computes with) and a token read back becomes the
value again, so a value survives exactly when the code hands the double through
HDF5 unchanged (a conversion to another type destroys the token).  The values
have no influence on what the library does: storing a double is data independent.
"""
import struct

import h5py
import numpy as np
from h5py._hl.attrs import AttributeManager
from h5py._hl.base import Empty

from . import core
from .core import S

BASE = struct.unpack("<Q", struct.pack("<d", 1.2345e150))[0]


class Tokens:
    def __init__(self):
        self.fwd, self.back = {}, {}

    def put(self, s):
        k = s.key()
        if k not in self.fwd:
            f = struct.unpack("<d", struct.pack("<Q", BASE + 7919 * (len(self.fwd) + 1)))[0]
            self.fwd[k] = f
            self.back[f] = s
        return self.fwd[k]

    def encode(self, v):
        if isinstance(v, S):
            return self.put(v)
        if isinstance(v, np.ndarray) and v.dtype == object:
            a = v.view(np.ndarray)
            if a.size == 0:
                return np.zeros(a.shape, dtype=float)
            flat = list(a.reshape(-1))
            if all(isinstance(x, (S, int, float, np.number, np.bool_)) for x in flat) and any(isinstance(x, S) for x in flat):
                out = np.array([self.put(x) if isinstance(x, S) else float(x) for x in flat])
                return out.reshape(a.shape)
            return v
        if isinstance(v, (list, tuple)) and any(isinstance(x, S) for x in v):
            return np.array([self.put(x) if isinstance(x, S) else float(x) for x in v])
        if isinstance(v, np.ndarray):
            return v.view(np.ndarray)
        return v

    def decode(self, v):
        if isinstance(v, (float, np.floating)):
            return self.back.get(float(v), v)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            hits = [x for x in v.reshape(-1) if float(x) in self.back]
            if not hits:
                return v
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                out[i] = self.back.get(float(v[i]), v[i])
            return out
        return v


class Symbolic:
    """the library accepts symbolic values while this is active"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.saved = []
        if not self.ctx.symbolic:
            return self
        t = self.tokens = Tokens()

        def patch(cls, name, mk):
            old = cls.__dict__[name]
            self.saved.append((cls, name, old))
            setattr(cls, name, mk(old))

        def create_dataset(old):
            def f(self, name, shape=None, dtype=None, data=None, **k):
                return old(self, name, shape=shape, dtype=dtype, data=t.encode(data), **k)
            return f

        def require_dataset(old):
            def f(self, name, shape, dtype, exact=False, **k):
                if "data" in k:
                    k["data"] = t.encode(k["data"])
                return old(self, name, shape, dtype, exact=exact, **k)
            return f

        def setitem(old):
            return lambda self, name, v: old(self, name, t.encode(v))

        def acreate(old):
            return lambda self, name, data, *a, **k: old(self, name, t.encode(data), *a, **k)

        def getitem(old):
            return lambda self, *a, **k: t.decode(old(self, *a, **k))
        patch(h5py.Group, "create_dataset", create_dataset)
        patch(h5py.Group, "require_dataset", require_dataset)
        patch(h5py.Group, "__setitem__", setitem)
        patch(h5py.Dataset, "__setitem__", setitem)
        patch(h5py.Dataset, "__getitem__", getitem)
        patch(h5py.Dataset, "__array__", getitem)
        patch(AttributeManager, "create", acreate)
        patch(AttributeManager, "modify", acreate)
        patch(AttributeManager, "__setitem__", setitem)
        patch(AttributeManager, "__getitem__", getitem)
        return self

    def __exit__(self, *a):
        for cls, name, old in reversed(self.saved):
            setattr(cls, name, old)


def dump(path):
    """everything in a file: {path: (attrs, value or None)}"""
    out = {}
    with h5py.File(path, "r") as f:
        def attrs(o):
            return {k: plain(o.attrs[k]) for k in o.attrs}
        out["/"] = (attrs(f), None)

        def visit(name, o):
            out[name] = (attrs(o), plain(o[()]) if isinstance(o, h5py.Dataset) else None)
        f.visititems(visit)
    return out


def plain(v):
    if isinstance(v, (bytes, np.bytes_)):
        return bytes(v).decode()
    if isinstance(v, np.bool_):
        return bool(v)
    return v
