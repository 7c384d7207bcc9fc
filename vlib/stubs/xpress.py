"""Stand-in for the FICO Xpress Python API (not installable here).

Model building is captured as z3 terms; nothing is solved.  `problem.solve()` calls the hook ON_SOLVE (set by a harness), which
decides what the "solver" returns -- typically an arbitrary solution vector satisfying the captured constraints.
"""
import z3

from vlib.symex import SymBool, SymNum, _real, to_z3, Fraction

binary = 1
integer = 2
continuous = 0
minimize = 1
maximize = -1
leq, geq, eq = 1, 2, 3
infinity = 1e20

ON_SOLVE = None
PROBLEMS = []
_n = [0]


class Constr:
    __slots__ = ("t", "lhs", "rhs", "op")

    def __init__(self, t, lhs=None, rhs=None, op=""):
        self.t, self.lhs, self.rhs, self.op = t, lhs, rhs, op

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return True

    def __repr__(self):
        return f"Constr({self.t})"


def _co(o):
    t = to_z3(o)
    return None if t is None else _real(t)


class Expr(SymNum):
    __slots__ = ()

    def _b(self, o, f, swap=False):
        t = _co(o)
        if t is None:
            return NotImplemented
        return Expr(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __neg__(self):
        return Expr(-self.t)

    def __pos__(self):
        return self

    def __pow__(self, n, mod=None):
        r = self
        for _ in range(int(n) - 1):
            r = r * self
        return r

    def _c(self, o, f, op):
        t = _co(o)
        if t is None:
            if isinstance(o, float):  # +-inf right hand side
                o = float(o)
                return Constr(z3.BoolVal(o > 0 if op == "<=" else o < 0), self, o, op)
            return NotImplemented
        return Constr(f(self.t, t), self, o, op)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, "<=")

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b, "==")

    def __ne__(self, o):
        raise TypeError("!= is not a linear constraint")

    def __lt__(self, o):
        raise TypeError("< is not a linear constraint")

    def __gt__(self, o):
        raise TypeError("> is not a linear constraint")

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def __abs__(self):
        raise TypeError("abs of a model expression")

    def __float__(self):
        raise TypeError("a model expression has no value")
    __int__ = __index__ = __float__


class var(Expr):
    __slots__ = ("name", "vartype", "lb", "ub", "b")

    def __init__(self, name=None, lb=0, ub=infinity, threshold=None, vartype=continuous):
        _n[0] += 1
        self.name = name if name is not None else f"C{_n[0]}"
        self.vartype, self.lb, self.ub = vartype, lb, ub
        zn = f"xp!{_n[0]}!{self.name}"
        if vartype == binary:
            self.b = z3.Bool(zn)
            t = z3.If(self.b, z3.RealVal(1), z3.RealVal(0))
        elif vartype == integer:
            self.b = None
            t = z3.ToReal(z3.Int(zn))
        else:
            self.b = None
            t = z3.Real(zn)
        Expr.__init__(self, t)

    def bounds(self):
        if self.vartype == binary:
            r = []
            if not isinstance(self.lb, SymNum) and self.lb > 0:
                r.append(self.b)
            if not isinstance(self.ub, SymNum) and self.ub < 1:
                r.append(z3.Not(self.b))
            return r
        r = []
        for side, v in (("l", self.lb), ("u", self.ub)):
            t = _co(v)
            if t is None or (not isinstance(v, SymNum) and abs(v) >= infinity):
                continue
            r.append(self.t >= t if side == "l" else self.t <= t)
        return r

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"var({self.name})"


def _flat(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from _flat(v)
    elif isinstance(x, (Expr, Constr, SymNum, SymBool, int, float, bool)):
        yield x
    else:
        try:
            it = iter(x)
        except TypeError:
            yield x
            return
        for v in it:
            yield from _flat(v)


def Sum(*args):
    ts = []
    for x in _flat(args):
        t = _co(x)
        if t is None:
            raise TypeError(f"cannot sum {x!r}")
        ts.append(t)
    if not ts:
        return Expr(z3.RealVal(0))
    return Expr(z3.Sum(ts) if len(ts) > 1 else ts[0])


def Prod(*args):
    r = None
    for x in _flat(args):
        r = x if r is None else r * x
    return r


class _Attributes:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, k):
        return self.p.getAttrib(k)


class problem:
    def __init__(self, *a, **k):
        self.vars = []
        self._idx = {}
        self.constraints = []
        self.objective = None
        self.sense = minimize
        self.controls = {}
        self.solved = 0
        self.solution = None
        self.attrib = {"mipstatus": 6, "lpstatus": 1, "mipsols": 1}
        self.objval = None
        self.attributes = _Attributes(self)
        self.name = None
        PROBLEMS.append(self)

    def setprobname(self, n):
        self.name = n

    def setControl(self, k, v=None):
        if isinstance(k, dict):
            self.controls.update(k)
        else:
            self.controls[k] = v

    def addVariable(self, *vs):
        for v in _flat(vs):
            if not isinstance(v, var):
                raise TypeError(f"not a variable: {v!r}")
            if id(v) in self._idx:
                raise RuntimeError("variable added twice")
            self._idx[id(v)] = len(self.vars)
            self.vars.append(v)

    def addConstraint(self, *cs):
        for c in _flat(cs):
            if isinstance(c, Constr):
                self.constraints.append(c)
            elif isinstance(c, (bool, SymBool)) or type(c).__name__ == "bool_":
                # comparison of two plain numbers
                from vlib.symex import boolterm
                self.constraints.append(Constr(boolterm(c)))
            else:
                raise TypeError(f"not a constraint: {c!r}")

    def delConstraint(self, *cs):
        for c in _flat(cs):
            for i, d in enumerate(self.constraints):
                if d is c:
                    del self.constraints[i]
                    break
            else:
                raise RuntimeError("constraint not in problem")

    def delVariable(self, *vs):
        for v in _flat(vs):
            i = self._idx.pop(id(v))
            del self.vars[i]
            for c in self.constraints:  # the column disappears from all rows
                c.t = z3.substitute(c.t, (v.t if v.b is None else v.b, z3.RealVal(0) if v.b is None else z3.BoolVal(False)))
            self._idx = {id(w): n for n, w in enumerate(self.vars)}

    def setObjective(self, expr, sense=minimize):
        self.objective, self.sense = expr, sense

    def chgbounds(self, *a):
        raise NotImplementedError

    def addmipsol(self, *a, **k):
        pass

    def solve(self, *a, **k):
        self.solved += 1
        if ON_SOLVE is not None:
            ON_SOLVE(self)

    mipoptimize = lpoptimize = optimize = solve

    def reset(self):
        self.vars = []
        self._idx = {}
        self.constraints = []
        self.objective = None

    def getIndex(self, v):
        return self._idx[id(v)]

    def getVariable(self, i=None):
        return self.vars if i is None else self.vars[i]

    def getSolution(self, *vs):
        if not vs:
            return self.solution
        r = [self.solution[self._idx[id(v)]] for v in _flat(vs)]
        return r[0] if len(vs) == 1 and isinstance(vs[0], var) else r

    def getObjVal(self):
        return self.objval

    def getAttrib(self, k=None):
        return self.attrib[k]

    def getProbStatus(self):
        return 6

    def write(self, *a, **k):
        pass

    # ---- used by the harnesses
    def terms(self):
        """all bounds and constraints as z3 booleans"""
        r = []
        for v in self.vars:
            for b in v.bounds():
                r.append(("bound " + v.name, b))
        for i, c in enumerate(self.constraints):
            r.append((f"constraint#{i}", c.t))
        return r
