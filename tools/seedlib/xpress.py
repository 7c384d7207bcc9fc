"""Tiny linear stand-in for the Xpress API, solved with scipy's HiGHS (demo programs only)."""
import math

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp

binary, integer, continuous = 1, 2, 0
minimize, maximize = 1, -1
infinity = 1e20


class Expr:
    def __init__(self, c=None, k=0.0):
        self.c, self.k = c or {}, float(k)

    @staticmethod
    def of(x):
        return x if isinstance(x, Expr) else Expr({}, float(x))

    def _lin(self, o, a, b):
        o = Expr.of(o)
        c = {v: a * q for v, q in self.c.items()}
        for v, q in o.c.items():
            c[v] = c.get(v, 0.0) + b * q
        return Expr(c, a * self.k + b * o.k)

    def __add__(self, o):
        return self._lin(o, 1, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, 1, -1)

    def __rsub__(self, o):
        return self._lin(o, -1, 1)

    def __neg__(self):
        return self._lin(0, -1, 0)

    def __mul__(self, o):
        o = Expr.of(o)
        if o.c and self.c:
            raise TypeError("nonlinear")
        e, f = (self, o.k) if self.c else (o, self.k)
        return Expr({v: q * f for v, q in e.c.items()}, e.k * f)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o)

    def __le__(self, o):
        return Constr(self - o, "<=")

    def __ge__(self, o):
        return Constr(self - o, ">=")

    def __eq__(self, o):
        return Constr(self - o, "==")

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


class Constr:
    def __init__(self, e, op):
        self.e, self.op = e, op


class var(Expr):
    def __init__(self, name=None, lb=0, ub=infinity, threshold=None, vartype=continuous):
        self.name, self.vartype, self.lb = name, vartype, lb
        self.ub = 1 if vartype == binary else ub
        Expr.__init__(self, {self: 1.0}, 0.0)


def _flat(x):
    if isinstance(x, dict):
        x = x.values()
    elif isinstance(x, (Expr, Constr, int, float, bool, np.generic)):
        yield x
        return
    for y in x:
        yield from _flat(y)


def Sum(*a):
    e = Expr()
    for x in _flat(a):
        e = e + x
    return e


class _A:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, k):
        return self.p.attrib[k]


class problem:
    def __init__(self, *a, **k):
        self.reset()
        self.attributes = _A(self)

    def reset(self):
        self.vars, self.cons, self.idx = [], [], {}
        self.obj, self.sense, self.sol = Expr(), minimize, None
        self.attrib = {"mipsols": 0, "mipstatus": 5, "lpstatus": 2}

    def setprobname(self, *a):
        pass
    setControl = write = addmipsol = setprobname

    def addVariable(self, *vs):
        for v in _flat(vs):
            self.idx[v] = len(self.vars)
            self.vars.append(v)

    def addConstraint(self, *cs):
        for c in _flat(cs):
            if isinstance(c, Constr):
                self.cons.append(c)
            elif not c:
                self.cons.append(Constr(Expr({}, 1), "=="))

    def delConstraint(self, *cs):
        for c in _flat(cs):
            self.cons = [d for d in self.cons if d is not c]

    def delVariable(self, *vs):
        gone = set(map(id, _flat(vs)))
        self.vars = [v for v in self.vars if id(v) not in gone]
        for c in self.cons:
            c.e = Expr({v: q for v, q in c.e.c.items() if id(v) not in gone}, c.e.k)
        self.idx = {v: i for i, v in enumerate(self.vars)}

    def setObjective(self, e, sense=minimize):
        self.obj, self.sense = Expr.of(e), sense

    def solve(self, *a, **k):
        n = len(self.vars)
        A, lo, hi = [], [], []
        ok = True
        for c in self.cons:
            row = np.zeros(n)
            for v, q in c.e.c.items():
                row[self.idx[v]] += q
            r = -c.e.k
            if not row.any():
                ok &= {"<=": 0 <= r + 1e-9, ">=": 0 >= r - 1e-9, "==": abs(r) < 1e-9}[c.op]
                continue
            A.append(row)
            lo.append(-np.inf if c.op == "<=" else r)
            hi.append(np.inf if c.op == ">=" else r)
        f = np.zeros(n)
        for v, q in self.obj.c.items():
            f[self.idx[v]] += q * self.sense
        b = Bounds([max(v.lb, -1e20) for v in self.vars], [v.ub if v.ub < 1e20 else np.inf for v in self.vars])
        res = milp(f, constraints=LinearConstraint(np.array(A), lo, hi) if A else None, bounds=b,
                   integrality=[1 if v.vartype else 0 for v in self.vars]) if ok and n else None
        if res is not None and res.status == 0:
            self.sol = [float(x) for x in res.x]
            self.objval = self.sense * res.fun + self.obj.k
            self.attrib = {"mipsols": 1, "mipstatus": 6, "lpstatus": 1}
        else:
            self.sol, self.attrib = None, {"mipsols": 0, "mipstatus": 5, "lpstatus": 2}

    def getIndex(self, v):
        return self.idx[v]

    def getSolution(self, *vs):
        if not vs:
            return self.sol
        r = [self.sol[self.idx[v]] for v in _flat(vs)]
        return r[0] if len(r) == 1 else r

    def getObjVal(self):
        return self.objval

    def getAttrib(self, k):
        return self.attrib[k]

    def getProbStatus(self):
        return self.attrib["mipstatus"]
