"""numpy over object arrays of symbolic numbers, and a dense stand-in for scipy.sparse, for code under symbolic execution."""
import builtins
import types
from fractions import Fraction

import numpy as rnp

import sym
from sym import Num, Unsupported, num


def isfloat(dtype):
    if dtype is None or dtype is float or dtype is builtins.float or dtype is FloatType or dtype is object:
        return True
    try:
        return rnp.issubdtype(rnp.dtype(dtype), rnp.floating)
    except TypeError:
        return False


def lift(a):
    """An object array of symbolic numbers."""
    if isinstance(a, Sparse):
        return a.a
    a = rnp.asarray(a)
    if a.dtype == object and any(isinstance(e, Num) and e.py for e in a.ravel()):
        out = rnp.empty(a.shape, dtype=object)
        for i in rnp.ndindex(a.shape):
            out[i] = Num(a[i].v) if isinstance(a[i], Num) else a[i]
        return out
    if a.dtype == object or not rnp.issubdtype(a.dtype, rnp.floating):
        return a
    out = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(a.shape):
        out[i] = num(a[i])
    return out


def filled(shape, v):
    out = rnp.empty(shape, dtype=object)
    for i in rnp.ndindex(out.shape):
        out[i] = v
    return out


Z, ONE = Num(Fraction(0)), Num(Fraction(1))


class FloatType(float):
    """float() in the code under execution."""

    def __new__(cls, x=0.0):
        if isinstance(x, Num):
            return x
        return builtins.float(x)


class Linalg:
    @staticmethod
    def norm(x, ord=None, axis=None):
        if axis is not None:
            raise Unsupported("norm along an axis")
        v = [num(e) for e in rnp.ravel(lift(x))]
        if ord in (None, 2, "fro"):
            s = Num(Fraction(0))
            for e in v:
                s = s + e * e
            return s.sqrt()
        if ord == 1:
            return sum((abs(e) for e in v), Z)
        if ord == rnp.inf:
            return max(abs(e) for e in v)
        raise Unsupported("norm")


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = Linalg
        self.double = self.float64 = rnp.float64

    def __getattr__(self, n):
        return getattr(rnp, n)

    def zeros(self, shape, dtype=None, **k):
        if isfloat(dtype):
            return filled(shape, Z)
        return rnp.zeros(shape, dtype=dtype, **k)

    def ones(self, shape, dtype=None, **k):
        if isfloat(dtype):
            return filled(shape, ONE)
        return rnp.ones(shape, dtype=dtype, **k)

    def full(self, shape, fill_value, dtype=None, **k):
        return filled(shape, Num(num(fill_value).v))

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(a.shape, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self.ones(a.shape, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(a.shape, v)

    def eye(self, n, m=None, dtype=None, **k):
        out = filled((n, m or n), Z)
        for i in range(min(n, m or n)):
            out[i, i] = ONE
        return out

    identity = eye

    def array(self, x, dtype=None, **k):
        if isinstance(x, Sparse):
            return x.a.copy()
        r = rnp.array(x) if not isinstance(x, rnp.ndarray) else x.copy()
        return lift(r) if isfloat(dtype) else r.astype(dtype)

    def asarray(self, x, dtype=None, **k):
        return x if isinstance(x, rnp.ndarray) else self.array(x, dtype)

    def copy(self, x):
        return x.copy()

    def dot(self, a, b):
        if isinstance(a, Sparse) or isinstance(b, Sparse):
            return Sparse.of(a).dot(b)
        return rnp.dot(lift(a), lift(b))

    def matmul(self, a, b):
        return self.dot(a, b)

    def sum(self, a, axis=None, **k):
        if isinstance(a, Sparse):
            return a.sum(axis)
        return rnp.sum(a, axis=axis, **k)

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, Num) else rnp.sqrt(x)

    def abs(self, x):
        return abs(x)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if isinstance(a, Num) or isinstance(b, Num):
            return abs(a - b) <= atol + rtol * abs(num(b))
        return rnp.array([self.isclose(num(x), num(y), rtol, atol) for x, y in rnp.broadcast(a, b)])

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        return bool(rnp.all(self.isclose(lift(a), lift(b), rtol, atol)))

    def isnan(self, x):
        if isinstance(x, Num):
            return x.v is None
        a = lift(x)
        return rnp.array([num(e).v is None for e in a.ravel()]).reshape(a.shape)

    def nan_to_num(self, x, **k):
        a = lift(x)
        out = a.copy()
        for i in rnp.ndindex(a.shape):
            if num(a[i]).v is None:
                out[i] = Z
        return out


class Sparse:
    """A matrix of any sparse format, held densely."""
    ndim = 2
    __array_ufunc__ = None
    dtype = rnp.dtype(float)

    def __init__(self, x=None, shape=None, dtype=None, copy=False, **k):
        if isinstance(x, Sparse):
            self.a = x.a.copy() if copy else x.a
        elif isinstance(x, tuple) and len(x) == 2 and all(isinstance(e, (int, rnp.integer)) for e in x):
            self.a = filled(x, Z)
        elif isinstance(x, tuple):
            data, (r, c) = x
            self.a = filled(shape, Z)
            for d, i, j in zip(data, r, c):
                self.a[i, j] = self.a[i, j] + d
        elif x is not None:
            a = lift(x)
            if a.dtype != object:
                a = rnp.array([num(e) for e in a.ravel()], dtype=object).reshape(a.shape)
            self.a = (a.reshape(1, -1) if a.ndim == 1 else a).copy()
        else:
            self.a = filled(shape, Z)

    @staticmethod
    def of(x):
        return x if isinstance(x, Sparse) else Sparse(x)

    @property
    def shape(self):
        return self.a.shape

    @property
    def nnz(self):
        return sum(1 for e in self.a.ravel() if e != 0)

    count_nonzero = lambda self: self.nnz

    @property
    def data(self):
        return self.a.reshape(-1)

    @data.setter
    def data(self, v):
        self.a = rnp.asarray(v).reshape(self.a.shape)

    def copy(self):
        return Sparse(self, copy=True)

    def _same(self, copy=False, **k):
        return Sparse(self, copy=copy)

    tocsr = tocsc = tocoo = todok = tolil = asformat = _same

    def astype(self, t, **k):
        return self.copy()

    def getformat(self):
        return "csr"

    def toarray(self, **k):
        return self.a.copy()

    todense = toarray

    def multiply(self, o):
        if not isinstance(o, (Sparse, rnp.ndarray)):
            return Sparse(self.a * num(o))
        return Sparse(self.a * lift(o))

    def dot(self, o):
        if isinstance(o, (Sparse, rnp.ndarray)):
            b = lift(o)
            r = rnp.dot(self.a, b)
            return Sparse(r) if isinstance(o, Sparse) else r
        return self.multiply(o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return rnp.dot(lift(o), self.a)

    def __mul__(self, o):
        if isinstance(o, Sparse):
            raise Unsupported("* of sparse matrices depends on their kind")
        return self.multiply(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Sparse(self.a / (lift(o) if isinstance(o, (Sparse, rnp.ndarray)) else num(o)))

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        self.a = self.a / num(o)
        return self

    def __add__(self, o):
        return Sparse(self.a + lift(o))

    def __sub__(self, o):
        return Sparse(self.a - lift(o))

    def __neg__(self):
        return Sparse(-self.a)

    def __abs__(self):
        return Sparse(abs(self.a))

    @property
    def T(self):
        return Sparse(self.a.T)

    def transpose(self):
        return self.T

    def sum(self, axis=None):
        return rnp.sum(self.a, axis=axis)

    def diagonal(self):
        return rnp.array([self.a[i, i] for i in range(min(self.a.shape))], dtype=object)

    def setdiag(self, v):
        for i in range(min(self.a.shape)):
            self.a[i, i] = num(v[i] if hasattr(v, "__len__") else v)

    def __getitem__(self, k):
        r = self.a[k]
        return Sparse(r) if isinstance(r, rnp.ndarray) else r

    def __setitem__(self, k, v):
        if isinstance(v, Sparse):
            v = v.a if isinstance(k, tuple) and any(isinstance(e, rnp.ndarray) for e in k) else v.a.reshape(-1) if v.a.shape[0] == 1 else v.a
        elif isinstance(v, rnp.ndarray):
            v = lift(v)
        else:
            v = Num(num(v).v)
        self.a[k] = v

    def nonzero(self):
        ij = [(i, j) for i, j in rnp.ndindex(self.a.shape) if self.a[i, j] != 0]
        return rnp.array([i for i, _ in ij]), rnp.array([j for _, j in ij])

    def items(self):
        return [((i, j), self.a[i, j]) for i, j in rnp.ndindex(self.a.shape) if self.a[i, j] != 0]

    def get(self, k, d=0.0):
        return self.a[k]

    def eliminate_zeros(self):
        pass


class SparseShim(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.sparse")
        for f in "dok csr csc coo lil bsr dia".split():
            setattr(self, f + "_array", Sparse)
            setattr(self, f + "_matrix", Sparse)
        self.linalg = Linalg

    @staticmethod
    def identity(n, **k):
        return Sparse(np.eye(n))

    eye = eye_array = identity

    @staticmethod
    def issparse(x):
        return isinstance(x, Sparse)

    @staticmethod
    def diags(v, *a, **k):
        m = filled((len(v), len(v)), Z)
        for i, e in enumerate(v):
            m[i, i] = num(e)
        return Sparse(m)


np = NumpyShim()
sparse = SparseShim()
scipy = types.ModuleType("scipy")
scipy.sparse = sparse
SHIMS = {"numpy": np, "scipy": scipy, "scipy.sparse": sparse, "scipy.sparse.linalg": Linalg, "numpy.linalg": Linalg}


def load(path, name, called):
    """Compiles a source file of the repository for symbolic execution."""
    real_import = builtins.__import__

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n in SHIMS:
            return SHIMS[n] if fromlist else SHIMS[n.split(".")[0]]
        return real_import(n, g, l, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    b["float"] = FloatType
    b["print"] = lambda *a, **k: None
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = b
    m.__dict__["__file__"] = path
    with open(path) as f:
        src = f.read()
    exec(compile(src, path, "exec"), m.__dict__)
    return m
