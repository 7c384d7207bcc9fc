"""Re-execution symbolic executor.

A harness is a Python function h(ctx).  Inputs come from ctx.real / ctx.int / ctx.bool / ctx.choice; the harness calls the real code
of /repo with them and states the property through ctx.check / ctx.eq / ctx.le.  In symbolic mode inputs are proxies over z3 terms, a
branch on a proxy forks (both sides are explored when the solver finds both feasible), and every check is a z3 query over all values of
the path.  In concrete mode (replay) the same harness runs with plain Python numbers taken from a counterexample.
"""
import inspect
import math
import random
import sys
import time
from fractions import Fraction

import z3

_max0, _min0 = max, min
_CUR = None  # current symbolic context


class Infeasible(BaseException):
    """path abandoned because its condition is unsatisfiable (assume failed)"""


class Truncated(BaseException):
    pass


class Violation(Exception):
    def __init__(self, label, values, detail=""):
        super().__init__(label)
        self.label, self.values, self.detail = label, values, detail


class ReplayFailed(Exception):
    pass


class Inconclusive(Exception):
    pass


def cur():
    return _CUR


# ---------------------------------------------------------------- proxies
def _rat(x):
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def to_z3(x):
    """Python number / proxy -> z3 arithmetic term, or None"""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return _rat(x)
    if isinstance(x, Fraction):
        return _rat(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return z3.IntVal(int(x))
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, np.floating):
            return to_z3(float(x))
    except ImportError:
        pass
    return None


def _real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _CUR.branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, boolterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, boolterm(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == boolterm(o))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SymNum(to_z3(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymNum(to_z3(self)) * o
    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SymBool({self.t})"


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SymNum:
    """real or integer valued proxy"""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # arithmetic ---------------------------------------------------------
    def _bin(self, o, f, swap=False):
        ot = to_z3(o)
        if ot is None:
            if isinstance(o, float) and math.isinf(o):
                return self._inf(o, f, swap)
            return NotImplemented
        a, b = (ot, self.t) if swap else (self.t, ot)
        if z3.is_int(a) != z3.is_int(b):
            a, b = _real(a), _real(b)
        return SymNum(f(a, b))

    def _inf(self, o, f, swap):
        name = getattr(f, "__name__", "")
        if name == "_add":
            return o
        if name == "_sub":
            return o if swap else -o
        if name == "_mul":
            s = self > 0
            if s:
                return o
            if self < 0:
                return -o
            return math.nan
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 0:
            return self
        return self._bin(o, _add)

    def __radd__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 0:
            return self
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        q = div(self, o)
        return floor_(q) if isinstance(q, SymNum) else q // 1

    def __rfloordiv__(self, o):
        q = div(o, self)
        return floor_(q)

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymNum(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n, mod=None):
        if isinstance(n, SymNum):
            return uf2("pow", self, n)
        if n == 2:
            return self * self
        if n == 1:
            return self
        if n == 0:
            return 1
        if n == 0.5:
            return sqrt_(self)
        if isinstance(n, int) and 0 < n <= 6:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        if n == -1:
            return div(1, self)
        if n == -2:
            return div(1, self * self)
        r = uf1(f"pow_{n}", self, lambda v: v ** n)
        c, a = _CUR, _real(self.t)
        key = ("powmono", str(n), a.get_id())
        if key not in c.memo:
            c.memo[key] = (True, a)
            c.axiom(z3.Implies(a > 0, r.t > 0))
            f = z3.Function(f"uf_pow_{n}", z3.RealSort(), z3.RealSort())
            for b in c.pow_args.get(str(n), []):
                up = z3.And((a < b) == (r.t < f(b)), (a == b) == (r.t == f(b)))
                dn = z3.And((a < b) == (r.t > f(b)), (a == b) == (r.t == f(b)))
                c.axiom(z3.Implies(z3.And(a > 0, b > 0), up if n > 0 else dn))
            ks = (0.001, 0.01, 0.1, 1, 10, 100, 1000)
            for k in ks:
                kv = _rat(float(k) ** n)
                if n > 0:
                    c.axiom(z3.Implies(a > 0, z3.And((a < _rat(k)) == (r.t < kv), (a == _rat(k)) == (r.t == kv))))
                else:
                    c.axiom(z3.Implies(a > 0, z3.And((a < _rat(k)) == (r.t > kv), (a == _rat(k)) == (r.t == kv))))
            if 0 < n < 1:  # concave: above its chords
                for k, l in zip((0,) + ks, ks):
                    fk, fl = float(k) ** n, float(l) ** n
                    c.axiom(z3.Implies(z3.And(a >= _rat(k), a <= _rat(l)), r.t >= _rat(fk) + (a - _rat(k)) * _rat((fl - fk) / (l - k))))
            c.pow_args.setdefault(str(n), []).append(a)
        return r

    def __rpow__(self, b):
        return uf1(f"exp_base_{b}", self, lambda v: float(b) ** v, mono=(+1 if b > 1 else -1), pos=True)

    # comparison ----------------------------------------------------------
    def _cmp(self, o, f, infpos, infneg):
        ot = to_z3(o)
        if ot is None:
            if isinstance(o, float) or type(o).__name__ in ("float64", "float32"):
                o = float(o)
                if math.isnan(o):
                    return False
                return infpos if o > 0 else infneg
            return NotImplemented
        a, b = self.t, ot
        if z3.is_int(a) != z3.is_int(b):
            a, b = _real(a), _real(b)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b, False, False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b, True, True)

    def __bool__(self):
        return _CUR.branch(self.t != 0)

    # conversions ----------------------------------------------------------
    def __hash__(self):
        return hash(self.__concrete__("hash"))

    def __concrete__(self, why):
        """pin the value: forks over integer values exhaustively; reals are pinned to one value (recorded as incomplete)"""
        return _CUR.concretise(self.t, why)

    def __float__(self):
        return float(self.__concrete__("float"))

    def __int__(self):
        t = self.t if z3.is_int(self.t) else z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))
        return int(_CUR.concretise(t, "int"))

    def __index__(self):
        if not z3.is_int(self.t):
            raise TypeError("index from real")
        ctx = _CUR
        try:
            return int(ctx.concretise(self.t, "int"))
        except BaseException as e:  # numpy swallows whatever an index raises
            ctx.swallowed = e
            raise

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    def __round__(self, n=None):
        return round_(self, n)

    def is_integer(self):
        if z3.is_int(self.t):
            return True
        return SymBool(z3.IsInt(self.t))

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"Sym({self.t})"

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt_(self)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return ceil_(self)

    def rint(self):
        return round_(self, None)

    def log10(self):
        return log10_(self)

    def log(self):
        return log_(self)

    def exp(self):
        return exp_(self)

    def sin(self):
        return sin_(self)

    def cos(self):
        return cos_(self)

    def tan(self):
        return sin_(self) / cos_(self)

    def arcsin(self):
        return uf1("asin", self, math.asin, mono=1, bounds=RIGHT)

    def arccos(self):
        return uf1("acos", self, math.acos, mono=-1)

    def arctan(self):
        return uf1("atan", self, math.atan, mono=1)

    def arctan2(self, o):
        return atan2_(self, o)

    def radians(self):
        return self * (math.pi / 180)

    def degrees(self):
        return self * (180 / math.pi)

    deg2rad = radians
    rad2deg = degrees

    def isnan(self):
        return False

    def isinf(self):
        return False


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


def div(a, b):
    bt, at = to_z3(b), to_z3(a)
    if bt is None or at is None:
        if isinstance(b, float) and math.isinf(b):
            return 0.0
        if isinstance(a, float) and math.isinf(a):
            if b > 0:
                return a
            if b < 0:
                return -a
            raise ZeroDivisionError("float division by zero")
        return NotImplemented
    if isinstance(b, SymNum) and not isinstance(b, NoFork):
        if _CUR.branch(bt == 0):
            raise ZeroDivisionError("float division by zero")
    elif not isinstance(b, SymNum) and b == 0:
        raise ZeroDivisionError("float division by zero")
    return SymNum(_real(at) / _real(bt))


class NoFork:
    pass


class HNum(SymNum):
    """a number usable as dictionary key: lookups compare with every key (forking on equality)"""
    __slots__ = ()

    def __hash__(self):
        return 0


class SymDict(dict):
    """a dictionary with concrete number keys that may be read with a symbolic key"""
    def _find(self, k):
        for x in dict.keys(self):
            if k == x:
                return x
        return None

    def get(self, k, d=None):
        if not isinstance(k, SymNum):
            return dict.get(self, k, d)
        x = self._find(k)
        return d if x is None else dict.__getitem__(self, x)

    def __getitem__(self, k):
        if not isinstance(k, SymNum):
            return dict.__getitem__(self, k)
        x = self._find(k)
        if x is None:
            raise KeyError(k)
        return dict.__getitem__(self, x)

    def __contains__(self, k):
        return dict.__contains__(self, k) if not isinstance(k, SymNum) else self._find(k) is not None


def hnum(x):
    return HNum(x.t) if isinstance(x, SymNum) else x


class _CastMeta(type):
    def __call__(cls, x=None, *a, **k):
        if isinstance(x, SymNum):
            return cls.of(x)
        return cls.base() if x is None else cls.base(x, *a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, cls.base) or isinstance(o, SymNum) and z3.is_int(o.t) == (cls.base is int)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.base)

    def __eq__(cls, o):
        return o is cls.base or o is cls

    def __hash__(cls):
        return hash(cls.base)


class plain_casts:
    """inside the given modules float() and int() leave proxies alone (they are the identity / truncation on numbers)"""
    def __init__(self, *mods):
        self.mods = mods

    def __enter__(self):
        self.old = []
        if _CUR is None:  # concrete replay: untouched code
            return
        import numpy as np

        class F(metaclass=_CastMeta):
            base, of, dtype = float, staticmethod(lambda x: SymNum(_real(x.t))), np.dtype(float)

        class I(metaclass=_CastMeta):
            base, of, dtype = int, staticmethod(trunc_), np.dtype(int)
        self.old = [(m, n, m.__dict__.get(n)) for m in self.mods for n in ("float", "int", "round")]
        for m in self.mods:
            m.float, m.int, m.round = F, I, round_

    def __exit__(self, *a):
        for m, n, o in self.old:
            if o is None:
                delattr(m, n)
            else:
                setattr(m, n, o)


def floor_(x):
    if not isinstance(x, SymNum):
        return math.floor(x)
    return x if z3.is_int(x.t) else SymNum(z3.ToInt(x.t))


def ceil_(x):
    if not isinstance(x, SymNum):
        return math.ceil(x)
    return x if z3.is_int(x.t) else SymNum(-z3.ToInt(-x.t))


def trunc_(x):
    if not isinstance(x, SymNum):
        return math.trunc(x)
    if z3.is_int(x.t):
        return x
    return SymNum(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


def round_(x, n=None):
    """round half to even"""
    if not isinstance(x, SymNum):
        return round(x) if n is None else round(x, n)
    if z3.is_int(x.t) and (n is None or n >= 0):
        return x
    k = 10 ** (n or 0)
    y = _real(x.t) * k
    f = z3.ToInt(y)
    frac = y - z3.ToReal(f)
    r = z3.If(frac < z3.Q(1, 2), f, z3.If(frac > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if n is None:
        return SymNum(r)
    return SymNum(z3.ToReal(r) / k)


# ------------------------------------------------ functions z3 does not know
def sqrt_(x):
    if not isinstance(x, SymNum):
        return math.sqrt(x)
    if _CUR.branch(x.t < 0):
        raise ValueError("math domain error")
    c = _CUR
    key = ("sqrt", x.t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    r = c.fresh_real("sqrt")
    c.axiom(z3.And(r >= 0, r * r == _real(x.t)))
    res = SymNum(r)
    c.memo[key] = (res, x.t)
    return res


# exactly known values / inverse pairs of the uninterpreted functions
ANCHORS = {"log10": (0.001, 0.01, 0.1, 1, 10, 100, 1000), "ln": (1,), "exp": (0,), "exp_base_10": (-3, -2, -1, 0, 1, 2, 3)}
INVERSE = {"log10": "exp_base_10", "exp_base_10": "log10", "ln": "exp", "exp": "ln"}


# a right angle, such that it is exactly 90 degrees
RIGHT = [z3.RatVal(q.numerator, q.denominator) for q in (-Fraction(90) / Fraction(180 / math.pi), Fraction(90) / Fraction(180 / math.pi))]


def uf1(name, x, fn, mono=0, pos=False, bounds=None, nonneg_dom=False):
    """uninterpreted function with optional strict monotonicity (between all applications, incl. sampled constants)"""
    c = _CUR
    if not isinstance(x, SymNum):
        return fn(x)
    f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
    a = _real(x.t)
    app = f(a)
    key = ("uf", name, a.get_id())
    if key not in c.memo:
        c.memo[key] = (True, a)
        if pos:
            c.axiom(app > 0)
        if name == "exp":
            c.axiom(app >= 1 + a)
        if bounds:
            c.axiom(z3.And(app >= bounds[0], app <= bounds[1]))
        if mono:
            for k in ANCHORS.get(name, ()):
                fk, kk = _rat(fn(k)), _rat(k)
                c.axiom(z3.And((a < kk) == (app < fk), (a == kk) == (app == fk)))
            inv = INVERSE.get(name)
            if inv is not None:
                g = z3.Function("uf_" + inv, z3.RealSort(), z3.RealSort())
                for b in c.uf_args.get(inv, []):
                    c.axiom(z3.And((a < g(b)) == (app < b), (a == g(b)) == (app == b)))
            for b in c.uf_args.get(name, []):
                fb = f(b)
                if mono > 0:
                    c.axiom(z3.And((a < b) == (app < fb), (a == b) == (app == fb)))
                else:
                    c.axiom(z3.And((a < b) == (app > fb), (a == b) == (app == fb)))
        c.uf_args.setdefault(name, []).append(a)
        c.uf_used.add(name)
    return SymNum(app)


def uf2(name, x, y):
    c = _CUR
    f = z3.Function("uf2_" + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
    c.uf_used.add(name)
    return SymNum(f(_real(to_z3(x)), _real(to_z3(y))))


def _strip(t, name):
    """if t is app of uf `name`, return its argument"""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == name and t.num_args() == 1:
        return t.arg(0)
    return None


def log10_(x):
    if not isinstance(x, SymNum):
        return math.log10(x)
    if _CUR.branch(x.t <= 0):
        raise ValueError("math domain error")
    return uf1("log10", x, math.log10, mono=1)


def log_(x, base=None):
    if not isinstance(x, SymNum):
        return math.log(x) if base is None else math.log(x, base)
    if _CUR.branch(x.t <= 0):
        raise ValueError("math domain error")
    if base == 10:
        return log10_(x)
    r = uf1("ln", x, math.log, mono=1)
    return r if base is None else r / math.log(base)


def exp_(x):
    return uf1("exp", x, math.exp, mono=1, pos=True)


def sin_(x):
    return uf1("sin", x, math.sin, bounds=(-1, 1))


def cos_(x):
    r = uf1("cos", x, math.cos, bounds=(-1, 1))
    return r


def atan2_(y, x):
    return uf2("atan2", y, x)


def isclose_(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = abs(a - b)
    m = max_(abs(a), abs(b)) * rel_tol if rel_tol else 0
    lim = max_(m, abs_tol)
    return d <= lim


def max_(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        x, y = to_z3(a), to_z3(b)
        if x is not None and y is not None:
            if not (z3.is_int(x) and z3.is_int(y)):
                x, y = _real(x), _real(y)
            return SymNum(z3.If(x >= y, x, y))
    return _max0(a, b)


def min_(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        x, y = to_z3(a), to_z3(b)
        if x is not None and y is not None:
            if not (z3.is_int(x) and z3.is_int(y)):
                x, y = _real(x), _real(y)
            return SymNum(z3.If(x <= y, x, y))
    return _min0(a, b)


def _merge(orig, pick):
    def w(*a, **k):
        xs = a
        if k and "key" not in k and len(a) == 1:
            xs = list(a[0])
            return w(xs) if xs else k["default"]
        if not k and len(a) == 1 and not isinstance(a[0], (SymNum, int, float)):
            xs = list(a[0])
            if not xs or not any(isinstance(x, SymNum) for x in xs):
                return orig(xs)
        elif k or not any(isinstance(x, SymNum) for x in a):
            return orig(*a, **k)
        if all(to_z3(x) is not None for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return orig(*xs)
    w.__name__ = orig.__name__
    return w


_patched = False


def patch_math():
    """make math.* accept proxies (unchanged for ordinary numbers)"""
    global _patched
    if _patched:
        return
    _patched = True
    import builtins
    # max/min over proxies become one if-then-else term instead of a fork (same value)
    builtins.max = _merge(_max0, max_)
    builtins.min = _merge(_min0, min_)

    def wrap(name, h):
        orig = getattr(math, name)

        def w(*a, **k):
            if any(isinstance(x, SymNum) for x in a):
                return h(*a, **k)
            return orig(*a, **k)
        w.__name__ = name
        setattr(math, name, w)

    wrap("sqrt", sqrt_)
    wrap("log10", log10_)
    wrap("log", log_)
    wrap("log2", lambda x: log_(x) / 0.6931471805599453)
    wrap("exp", exp_)
    wrap("sin", sin_)
    wrap("cos", cos_)
    wrap("tan", lambda x: sin_(x) / cos_(x))
    wrap("atan2", atan2_)
    wrap("asin", lambda x: uf1("asin", x, None, mono=1, bounds=RIGHT))
    wrap("acos", lambda x: uf1("acos", x, None, mono=-1))
    wrap("atan", lambda x: uf1("atan", x, None, mono=1))
    wrap("radians", lambda x: x * (3.141592653589793 / 180))
    wrap("degrees", lambda x: x * (180 / 3.141592653589793))
    wrap("fabs", abs)
    wrap("floor", floor_)
    wrap("ceil", ceil_)
    wrap("trunc", trunc_)
    wrap("isclose", isclose_)
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    wrap("isfinite", lambda x: True)
    wrap("pow", lambda a, b: a ** b)
    wrap("fmod", lambda a, b: a - b * trunc_(div(a, b)))
    wrap("hypot", lambda *a: sqrt_(sum(x * x for x in a)))

    def copysign(a, b):
        m = abs(a)
        return m if b >= 0 else -m
    wrap("copysign", copysign)
    import numpy as np
    o_interp = np.interp

    def interp(x, xp, fp, left=None, right=None, period=None):
        if not isinstance(x, SymNum):
            return o_interp(x, xp, fp, left=left, right=right, period=period)
        xp, fp = [float(v) for v in xp], [float(v) for v in fp]
        r = fp[-1] if right is None else right
        t = _real(to_z3(r))
        t = z3.If(x.t == _rat(xp[-1]), _rat(fp[-1]), t)
        for i in range(len(xp) - 2, -1, -1):
            seg = _rat(fp[i]) + (_real(x.t) - _rat(xp[i])) * _rat(Fraction(fp[i + 1]) - Fraction(fp[i])) / _rat(Fraction(xp[i + 1]) - Fraction(xp[i]))
            t = z3.If(x.t < _rat(xp[i + 1]), seg, t)
        t = z3.If(x.t < _rat(xp[0]), _real(to_z3(fp[0] if left is None else left)), t)
        return SymNum(t)
    np.interp = interp
    o_fsum = math.fsum

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(isinstance(x, SymNum) for x in xs) else o_fsum(xs)
    math.fsum = fsum


# ---------------------------------------------------------------- contexts
class Stats:
    def __init__(self):
        self.paths = self.queries = self.branches = self.checks = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.truncated = 0
        self.concretised = {}
        self.infeasible = 0
        self.errors = []
        self.reached = {}
        self.samples = []
        self.ufs = set()
        self.labels = {}
        self.undecided = {}

    def merge(self, o):
        for k in ("paths", "queries", "branches", "checks", "unknown", "truncated", "infeasible"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.solver_s += o.solver_s
        for k, v in o.concretised.items():
            self.concretised[k] = self.concretised.get(k, 0) + v
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        for k, v in o.undecided.items():
            self.undecided[k] = self.undecided.get(k, 0) + v
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.errors += o.errors
        self.samples += o.samples[:2]
        self.ufs |= o.ufs


class BaseCtx:
    symbolic = False

    def eq(self, a, b, label, tol=1e-6):
        raise NotImplementedError

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None, logic=None, rng=None):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.rng = rng or random.Random(1)
        self.suppressed = set()
        self.bounds = {}
        self.new_solver()
        self.logic = logic

    def new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)

    # inputs -------------------------------------------------------------
    def real(self, name, lo=None, hi=None, strict_lo=False):
        v = z3.Real(name)
        self.inputs[name] = v
        self.bounds[name] = (lo, hi)
        if lo is not None:
            self.axiom(v > _rat(lo) if strict_lo else v >= _rat(lo))
        if hi is not None:
            self.axiom(v <= _rat(hi))
        return SymNum(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.axiom(v >= lo)
        if hi is not None:
            self.axiom(v <= hi)
        return SymNum(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def choice(self, name, options):
        """symbolic selector over a finite list; forked on by the executor"""
        options = list(options)
        v = z3.Int(name)
        self.inputs[name] = v
        self.axiom(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.branch(v == i):
                return options[i]
        return options[-1]

    def flag(self, name):
        """boolean input forked on immediately (used where the code needs a genuine bool)"""
        v = z3.Bool(name)
        self.inputs[name] = v
        return self.branch(v)

    # path management -------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.inputs = {}
        self.memo = {}
        self.uf_args = {}
        self.uf_used = set()
        self.pow_args = {}
        self.model = None
        self.nfresh = 0
        self.solver.push()
        self.on_cleanup = []

    def end(self):
        self.solver.pop()
        self.stats.ufs |= self.uf_used
        for f in self.on_cleanup:
            f()

    def fresh_real(self, tag):
        self.nfresh += 1
        return z3.Real(f"_{tag}_{self.nfresh}")

    def fresh_bool(self, tag):
        self.nfresh += 1
        return z3.Bool(f"_{tag}_{self.nfresh}")

    def axiom(self, t):
        self.solver.add(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Truncated("deadline")
        self.stats.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown and "canceled" not in self.solver.reason_unknown():
            # a fresh, non-incremental solver uses the full tactic (nlsat etc.)
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(self.solver.assertions())
            for e in extra:
                s.add(e)
            t0 = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t0
            if r == z3.sat:
                self._last_model = s.model()
                return r
        if r == z3.sat:
            self._last_model = self.solver.model()
        return r

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((d[0], d[1]))
            self.axiom(t if d[0] else z3.Not(t))
            return d[0]
        # new decision
        side = None
        if self.model is not None:
            try:
                v = self.model.eval(t, model_completion=True)
                side = True if z3.is_true(v) else False if z3.is_false(v) else None
            except z3.Z3Exception:
                side = None
        feas = {}
        if side is not None:
            feas[side] = True
        for s in (True, False):
            if s in feas:
                continue
            if feas.get(not s) is False:
                feas[s] = True  # pc is feasible, so the other side must be
                continue
            r = self._check(t if s else z3.Not(t))
            if r == z3.unknown:
                self.stats.unknown += 1
                feas[s] = True  # explore anyway (over-approximate)
            else:
                feas[s] = r == z3.sat
                if r == z3.sat and self.model is None and s:
                    self.model = self._last_model
        if feas[True] and feas[False]:
            d, both = True, True
        elif feas[True]:
            d, both = True, False
        elif feas[False]:
            d, both = False, False
        else:
            raise Infeasible()
        self.pos += 1
        self.decisions.append((d, both))
        self.prefix = self.prefix + [(d, both)]
        self.axiom(t if d else z3.Not(t))
        return d

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self.model = self._last_model
        return self.model

    def concretise(self, t, why):
        ts = z3.simplify(t)
        v = _num(ts)
        if v is not None:
            return v
        if z3.is_int(t):
            while True:
                m = self.get_model()
                if m is None:
                    raise Inconclusive("concretise")
                # models may differ between runs: remember the pick in the decision prefix through a deterministic order
                val = self._pick_int(t)
                if self.branch(t == val):
                    return val
        self.stats.concretised[why] = self.stats.concretised.get(why, 0) + 1
        key = ("conc", t.get_id())
        if key in self.memo:
            return self.memo[key][0]
        # replayable: minimise nothing, take the model value but pin it into the path as part of the condition
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos][1]
            self.pos += 1
            self.decisions.append(("val", val))
        else:
            m = self.get_model()
            if m is None:
                raise Inconclusive("concretise")
            val = m.eval(t, model_completion=True)
            val = _num(val)
            if val is None:
                raise Inconclusive("concretise irrational")
            self.pos += 1
            self.decisions.append(("val", val))
            self.prefix = self.prefix + [("val", val)]
        self.axiom(t == _rat(val))
        self.memo[key] = (val, t)
        return val

    def _pick_int(self, t):
        """a feasible value of integer term t, chosen deterministically and remembered in the prefix"""
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos][1]
            self.pos += 1
            self.decisions.append(("val", val))
            return val
        m = self.get_model()
        val = m.eval(t, model_completion=True).as_long()
        self.pos += 1
        self.decisions.append(("val", val))
        self.prefix = self.prefix + [("val", val)]
        return val

    def assume(self, c):
        t = z3.simplify(boolterm(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.axiom(t)
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self._last_model
            else:
                self.stats.unknown += 1

    # obligations ------------------------------------------------------------
    def check(self, c, label):
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if label in self.suppressed:
            return
        t = z3.simplify(boolterm(c))
        if z3.is_true(t):
            return
        r = self._check(z3.Not(t))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive(f"unknown: {label}")
        v = Violation(label, self.values(self._last_model))
        v.cond = c
        raise v

    def values(self, m):
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[n] = bool(z3.is_true(x))
            else:
                y = _num(x, approx=True)
                out[n] = y if z3.is_int(v) else Fraction(y)
        return out

    def more_models(self, c, label, n, rng, wide=False):
        """further counterexamples of a failed check, spread over the input space"""
        t = z3.Not(boolterm(c)) if c is not None else z3.BoolVal(True)
        for _ in range(n):
            self.solver.push()
            try:
                self.solver.add(t)
                for name, v in self.inputs.items():
                    if wide and z3.is_real(v):
                        lo, hi = self.bounds.get(name, (None, None))
                        lo = -100.0 if lo is None else float(lo)
                        hi = lo + 200.0 if hi is None else float(hi)
                        a, w = rng.uniform(lo, hi), (hi - lo) * rng.choice((0.01, 0.05, 0.2))
                        self.solver.push()
                        self.solver.add(v >= _rat(round(a - w, 3)), v <= _rat(round(a + w, 3)))
                        if self.solver.check() != z3.sat:
                            self.solver.pop()
                    elif z3.is_real(v) and rng.random() < 0.5:
                        m = self._last_model.eval(v, model_completion=True)
                        y = _num(m, approx=True)
                        k = _rat(Fraction(y).limit_denominator(1000) + Fraction(rng.randint(-50, 50), 10))
                        self.solver.push()
                        self.solver.add(v >= k if rng.random() < 0.5 else v <= k)
                        if self.solver.check() != z3.sat:
                            self.solver.pop()
                if self.solver.check() == z3.sat:
                    yield self.values(self.solver.model())
            finally:
                while self.solver.num_scopes() > 1:
                    self.solver.pop()

    def eq(self, a, b, label, tol=1e-6):
        self.check(eqterm(a, b), label)

    def close(self, a, b, label, tol=1e-6):
        """equal up to a small absolute error (where rounded constants differ in the last digit)"""
        t = _rat(tol)
        d = to_z3(a - b)
        self.check(SymBool(z3.And(d <= t, d >= -t)), label)

    def le(self, a, b, label, tol=1e-6):
        self.check(a <= b, label)

    def lt(self, a, b, label, tol=1e-6):
        self.check(a < b, label)

    def both(self, a, b):
        return SymBool(z3.And(boolterm(a), boolterm(b)))

    def AND(self, *a):
        return SymBool(z3.And([boolterm(x) for x in a]))

    def OR(self, *a):
        return SymBool(z3.Or([boolterm(x) for x in a]))

    def NOT(self, a):
        return SymBool(z3.Not(boolterm(a)))

    def ITE(self, c, a, b):
        ta, tb = to_z3(a), to_z3(b)
        if z3.is_int(ta) != z3.is_int(tb):
            ta, tb = _real(ta), _real(tb)
        return SymNum(z3.If(boolterm(c), ta, tb))


def eqterm(a, b):
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return False
        return a == b
    return a == b


def _num(x, approx=False):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x) and approx:
        y = x.approx(20)
        return Fraction(y.numerator_as_long(), y.denominator_as_long())
    return None


class CheckFailed(Exception):
    pass


class ConcCtx(BaseCtx):
    """replay with concrete values"""
    def __init__(self, values):
        self.values_ = values
        self.stats = Stats()
        self.failed = []
        self.on_cleanup = []

    def _get(self, name, default):
        return self.values_.get(name, default)

    def real(self, name, lo=None, hi=None, strict_lo=False):
        d = lo if lo is not None else hi if hi is not None else 0
        v = self._get(name, d)
        f = Fraction(v)
        return int(f) if False else float(f)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, options):
        return list(options)[int(self._get(name, 0))]

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, label):
        if not c:
            raise CheckFailed(label)

    def eq(self, a, b, label, tol=1e-6):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
            ok = a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        else:
            ok = a == b
        self.check(ok, label)

    close = eq

    def le(self, a, b, label, tol=1e-6):
        self.check(a <= b + tol * max(1.0, abs(b) if abs(b) != math.inf else 1.0), label)

    def lt(self, a, b, label, tol=1e-6):
        self.le(a, b, label, tol)

    def AND(self, *a):
        return all(bool(x) for x in a)

    def OR(self, *a):
        return any(bool(x) for x in a)

    def NOT(self, a):
        return not a

    def both(self, a, b):
        return bool(a) and bool(b)

    def ITE(self, c, a, b):
        return a if c else b


def replay(h, values):
    """run harness h concretely; returns failure label or None"""
    c = ConcCtx(values)
    try:
        h(c)
    except CheckFailed as e:
        return str(e)
    except Infeasible:
        return None
    except AssumeBlocked:
        return None
    except Exception as e:  # an exception of the code under test that the harness does not allow
        return f"unexpected {type(e).__name__}: {e}"
    finally:
        for f in c.on_cleanup:
            f()
    return None


class AssumeBlocked(Exception):
    pass


_VERIF = __file__.rsplit("/", 2)[0] + "/"


def _harness_fault(e):
    """an internal name of the code the harness uses is gone, or a stand-in or such a name is called in another way: nothing
    the code does wrong, but the case is not decided"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    ours = tb is not None and tb.tb_frame.f_code.co_filename.startswith(_VERIF)
    m = str(e)
    if isinstance(e, ImportError):
        return ours
    if isinstance(e, AttributeError):
        return ours and m.startswith("module 'terragraph_planner")
    if isinstance(e, TypeError):
        call = "positional argument" in m or "keyword argument" in m
        return call and (ours or "<lambda>()" in m or ".<locals>." in m)
    return False


def explore(h, ctx, name=""):
    """run h over all paths.  Returns (violation or None)."""
    global _CUR
    patch_math()
    prefix = []
    st = ctx.stats
    while True:
        if st.paths >= ctx.max_paths or (ctx.deadline and time.time() > ctx.deadline):
            st.truncated += 1
            return None
        _CUR = ctx
        ctx.begin(prefix)
        viol = None
        ctx.swallowed = None
        try:
            try:
                h(ctx)
            except IndexError:
                if ctx.swallowed is not None:
                    raise ctx.swallowed
                raise
            st.paths += 1
            if len(st.samples) < 2:
                m = ctx.get_model()
                if m is not None:
                    st.samples.append({k: str(v) for k, v in ctx.values(m).items()})
        except Infeasible:
            st.infeasible += 1
        except Truncated:
            st.truncated += 1
            ctx.end()
            return None
        except Violation as v:
            viol = v
        except Inconclusive as e:
            st.errors.append(f"{name}: inconclusive {e}")
        except Exception as e:
            if _harness_fault(e):
                st.errors.append(f"{name}: the harness does not fit the code any more: {type(e).__name__}: {e}")
                ctx.end()
                _CUR = None
                return None
            # an exception escaping the real code: a candidate violation, to be confirmed by replay
            m = None
            try:
                m = ctx.get_model()
            except Infeasible:
                pass
            if m is not None:
                viol = Violation(f"unexpected {type(e).__name__}: {e}", ctx.values(m))
                viol.exc = e
            else:
                st.errors.append(f"{name}: {type(e).__name__} {e}")
        if viol is not None:
            approx = bool(ctx.uf_used)
            lab = _confirm(h, viol, ctx)
            ctx.end()
            _CUR = None
            if lab is None and approx:
                # the counterexample rests on an uninterpreted function (sin, log, ...) and no concrete
                # input shows it: undecided, reported in the evidence, not an alarm
                k = f"{name}: {viol.label}"
                st.undecided[k] = st.undecided.get(k, 0) + 1
                if getattr(viol, "exc", None) is None and viol.label not in ctx.suppressed and st.undecided[k] < 50:
                    ctx.suppressed.add(viol.label)
                    continue  # same path again for its other obligations
            elif lab is None:
                if getattr(viol, "exc", None) is not None:
                    import traceback
                    tb = "".join(traceback.format_exception(viol.exc))[-1500:]
                    st.errors.append(f"{name}: {viol.label} not reproduced on concrete run (engine limit?)\n{tb}")
                else:
                    st.errors.append(f"{name}: counterexample for '{viol.label}' did not reproduce: {viol.values}")
                if len(st.errors) > 20:
                    return None
            else:
                viol.label_replayed = lab
                return viol
        else:
            ctx.end()
        ctx.suppressed = set()
        # next path: flip the last decision with an unexplored side
        ds = ctx.decisions
        while ds and not (ds[-1][0] is True and ds[-1][1] is True):
            ds.pop()
        if not ds:
            _CUR = None
            return None
        prefix = ds[:-1] + [(False, False)]


def _confirm(h, viol, ctx):
    global _CUR
    saved = _CUR
    _CUR = None
    try:
        lab = replay(h, viol.values)
        if lab is not None:
            return lab
        rng = random.Random(7)
        # other models of the same path / label
        try:
            for cond, n, wide in ((getattr(viol, "cond", None), 10, False), (None, 10, False)) + (((None, 60, True),) if ctx.uf_used else ()):
                for vals in ctx.more_models(cond, viol.label, n, rng, wide):
                    lab = replay(h, vals)
                    if lab is not None:
                        viol.values = vals
                        return lab
        except Exception:
            pass
        return None
    finally:
        _CUR = saved


def _positional(old, new):
    """calls of `new` get all arguments in the order of the parameters of `old`"""
    if isinstance(old, type):
        return new
    sig = inspect.signature(old)

    def call(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return new(*b.args, **b.kwargs)
    return call


class swapped:
    """replaces functions (given as (original, replacement) pairs) under every name the package knows them by"""
    def __init__(self, *pairs):
        self.pairs = [(old, _positional(old, new)) for old, new in pairs]

    def __enter__(self):
        self.undo = []
        for m in [m for n, m in sys.modules.items() if n.startswith("terragraph_planner") and ".test" not in n and m is not None]:
            for k, v in list(vars(m).items()):
                for old, new in self.pairs:
                    if v is old:
                        self.undo.append((m, k, v))
                        setattr(m, k, new)

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)
