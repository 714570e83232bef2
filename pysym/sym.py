"""Symbolic execution of Python code over exact reals: numbers are Fractions or z3 terms, a branch on a term
asks the solver for both sides, and a path is re-run from its decisions (depth first)."""
import builtins
import math
import time
from fractions import Fraction

import numpy as rnp
import z3

MAXDEC = 200


class Unsupported(Exception):
    """The code does something the encoding does not cover."""


class Infeasible(Exception):
    pass


class Failed(Exception):
    def __init__(self, label, model):
        self.label, self.model = label, model


class Path:
    """The state of one path."""

    def __init__(self, prefix, stats):
        self.prefix, self.dec, self.pc, self.alts = prefix, [], [], []
        self.vars, self.stats, self.nfresh = {}, stats, 0
        self.solver = z3.SolverFor("QF_NRA")
        self.solver.set("timeout", 20000)

    def query(self, *extra):
        self.stats["queries"] += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            if i >= MAXDEC:
                raise Unsupported("too many branches")
            self.solver.set("timeout", 4000)
            t, f = self.query(e), self.query(z3.Not(e))
            self.solver.set("timeout", 20000)
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            b = t != z3.unsat
            if b and f != z3.unsat:
                self.stats["forks"] += 1
                self.alts.append(self.dec + [False])
        self.dec.append(b)
        self.add(e if b else z3.Not(e))
        return b


cur = None  # the path being run


def real(name, lo=None, hi=None):
    """A symbolic input."""
    x = z3.Real(name)
    cur.vars[name] = x
    if lo is not None:
        cur.add(x >= lo)
    if hi is not None:
        cur.add(x <= hi)
    return Num(x, True)


def assume(c):
    if isinstance(c, z3.ExprRef):
        cur.add(c)
        if cur.query() == z3.unsat:
            raise Infeasible()
    elif not c:
        raise Infeasible()


def check(cond, label):
    """An assertion: no input of the path makes it false."""
    cur.stats["asserts"] += 1
    if not isinstance(cond, z3.ExprRef):
        if cond:
            return
        cond = z3.BoolVal(False)
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return
    neg = z3.Not(cond)
    r = cur.query(neg)
    cur.stats["asserts_solver"] += 1
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Unsupported("undecided: " + label)
    m = cur.solver.model()
    vals = {}
    for n, x in cur.vars.items():
        v = m.eval(x, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        vals[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise Failed(label, vals)


def term(x):
    """The z3 term of a number."""
    v = num(x).v
    if v is None:
        raise Unsupported("not a number")
    return z3.RealVal(v) if isinstance(v, Fraction) else v


def same(a, b):
    """a = b, decided syntactically where expanding the polynomials suffices."""
    a, b = num(a).v, num(b).v
    if a is None or b is None:
        return a is b
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = term(Num(a)), term(Num(b))
    d = z3.simplify(a - b, som=True)
    return True if z3.is_rational_value(d) and d.as_fraction() == 0 else a == b


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return Num(Fraction(int(x)))
    if isinstance(x, (int, Fraction)):
        return Num(Fraction(x))
    if isinstance(x, (float, rnp.floating)):
        if math.isnan(x):
            return Num(None)
        if math.isinf(x):
            raise Unsupported("infinity")
        return Num(Fraction(float(x)).limit_denominator(10**12), not isinstance(x, rnp.floating))
    if isinstance(x, rnp.integer):
        return Num(Fraction(int(x)))
    if isinstance(x, rnp.ndarray) and x.shape == ():
        return num(x.item())
    return None


def _bin(f):
    def op(self, other):
        o = num(other)
        if o is None:
            return NotImplemented
        return f(self, o)
    return op


class Num:
    """A real number: a Fraction, a z3 term, or None for not-a-number; py says that it is a Python float,
    whose division by zero is an error (numpy's is not)."""
    __slots__ = ("v", "py")

    def __init__(self, v, py=False):
        self.v, self.py = v, py

    def _t(self):
        return z3.RealVal(self.v) if isinstance(self.v, Fraction) else self.v

    def _mk(self, o, f):
        py = self.py and o.py
        if self.v is None or o.v is None:
            return Num(None, py)
        if isinstance(self.v, Fraction) and isinstance(o.v, Fraction):
            return Num(f(self.v, o.v), py)
        r = z3.simplify(f(self._t(), o._t()))
        if z3.is_rational_value(r):
            r = r.as_fraction()
        return Num(r, py)

    __add__ = _bin(lambda a, b: a._mk(b, lambda x, y: x + y))
    __radd__ = _bin(lambda a, b: b._mk(a, lambda x, y: x + y))
    __sub__ = _bin(lambda a, b: a._mk(b, lambda x, y: x - y))
    __rsub__ = _bin(lambda a, b: b._mk(a, lambda x, y: x - y))
    __mul__ = _bin(lambda a, b: a._mk(b, lambda x, y: x * y))
    __rmul__ = _bin(lambda a, b: b._mk(a, lambda x, y: x * y))

    def _div(a, b):
        if b.v is not None and (b == 0):
            if a.py and b.py:
                raise ZeroDivisionError("float division by zero")
            if a.v is not None and not (a == 0):
                raise Unsupported("infinity")
            return Num(None)
        return a._mk(b, lambda x, y: x / y)

    __truediv__ = _bin(lambda a, b: Num._div(a, b))
    __rtruediv__ = _bin(lambda a, b: Num._div(b, a))

    def __pow__(self, n):
        n = num(n).v
        if n == Fraction(1, 2):
            return self.sqrt()
        if not isinstance(n, Fraction) or n.denominator != 1 or n < 0:
            raise Unsupported("power")
        r = Num(Fraction(1), self.py)
        for _ in range(int(n)):
            r = r * self
        return r

    def sqrt(self):
        if self.v is None:
            return self
        if isinstance(self.v, Fraction):
            a, b = math.isqrt(self.v.numerator), math.isqrt(self.v.denominator)
            if a * a == self.v.numerator and b * b == self.v.denominator:
                return Num(Fraction(a, b))
        return Root(self)

    def __neg__(self):
        return Num(None if self.v is None else -self.v, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def conjugate(self):
        return self

    def _cmp(self, other, f):
        o = num(other)
        if o is None:
            return NotImplemented
        if self.v is None or o.v is None:
            return False
        if isinstance(self.v, Fraction) and isinstance(o.v, Fraction):
            return f(self.v, o.v)
        return cur.branch(f(self._t(), o._t()))

    def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
    def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
    def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)
    def __eq__(self, o): return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else not e

    __hash__ = object.__hash__

    def __bool__(self):
        return self.v is None or not (self == 0)

    def __float__(self):
        if self.v is None:
            return math.nan
        if isinstance(self.v, Fraction):
            return float(self.v)
        raise Unsupported("conversion of a symbolic number")

    def __int__(self):
        if isinstance(self.v, Fraction):
            return int(self.v)
        raise Unsupported("conversion of a symbolic number")

    def __round__(self, n=None):
        if isinstance(self.v, Fraction):
            return round(self.v) if n is None else Num(round(self.v, n), self.py)
        raise Unsupported("rounding of a symbolic number")

    def __repr__(self):
        return "nan" if self.v is None else str(self.v)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class Root(Num):
    """The square root of a term; compared with a constant by squaring, else a new variable."""
    __slots__ = ("sq", "var")

    def __init__(self, sq):
        self.sq, self.var, self.py = sq, None, False

    @property
    def v(self):
        if self.var is None:
            cur.nfresh += 1
            self.var = z3.Real("sqrt!%d" % cur.nfresh)
            cur.add(self.var >= 0)
            cur.add(self.var * self.var == self.sq._t())
        return self.var

    def _cmp(self, other, f):
        o = num(other)
        if o is not None and self.var is None and not isinstance(o, Root) and isinstance(o.v, Fraction):
            if o.v < 0:
                return f(Fraction(0), o.v)
            return self.sq._cmp(Num(o.v * o.v), f)
        return Num._cmp(self, other, f)


def explore(run, stats, limit=2000, deadline=None):
    """Runs every feasible path of run(); returns the counterexamples."""
    global cur
    out, todo = [], [[]]
    while todo:
        if deadline and time.time() > deadline or stats["paths"] >= stats["start"] + limit:
            stats["left"] += len(todo)
            break
        cur = Path(todo.pop(), stats)
        stats["paths"] += 1
        try:
            run()
            stats["done"] += 1
            sample(cur, stats)
        except Infeasible:
            stats["infeasible"] += 1
        except Failed as f:
            stats["failed"] += 1
            out.append((f.label, f.model))
        except Unsupported as u:
            stats["unsupported"] += 1
            stats.setdefault("why", {}).setdefault(str(u), 0)
            stats["why"][str(u)] += 1
        todo += cur.alts
    return out


def sample(p, stats):
    """Keeps the inputs of some paths for the native validation."""
    if len(stats["samples"]) >= 1:
        return
    if p.query() != z3.sat:
        return
    m = p.solver.model()
    vals = {}
    for n, x in p.vars.items():
        v = m.eval(x, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        vals[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    stats["samples"].append(vals)


# ---- native runs: the same harness on floats ----
native = None  # the inputs of a native run


def setup_native(vals):
    global native
    native = vals


_real, _assume, _check, _same = real, assume, check, same


def real(name, lo=None, hi=None):
    if native is None:
        return _real(name, lo, hi)
    return native.get(name, 0.0)


def assume(c):
    if native is None:
        return _assume(c)


def check(cond, label):
    if native is None:
        return _check(cond, label)
    if not cond:
        raise Failed(label, native)


def same(a, b):
    if native is None:
        return _same(a, b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-6 * (1 + abs(a))


def le(a, b):
    """a <= b"""
    if native is None:
        a, b = num(a).v, num(b).v
        if a is None or b is None:
            return False
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a <= b
        return term(Num(a)) <= term(Num(b))
    return a <= b + 1e-7


def ratio(p, q):
    return Num(Fraction(p, q)) if native is None else p / q
