"""Engine B: run the real model-building code against the captured solver API and compare with a specification."""
import time
from collections import defaultdict

import z3

from vlib import symex
from vlib.symex import CheckFailed, Inconclusive, SymNum, Truncated, Violation, _real, to_z3
from vlib import topo as T

SUPER = "SUPERSOURCE"


def term(x):
    return _real(to_z3(x))


def solver_for(ctx):
    s = z3.Solver()
    s.set("timeout", 30000)
    if ctx.symbolic:
        s.add(ctx.solver.assertions())
    return s


def _query(ctx, s, extra):
    if ctx.symbolic and ctx.deadline and time.time() > ctx.deadline:
        raise Truncated("deadline")
    ctx.stats.queries += 1
    t0 = time.time()
    s.push()
    s.add(extra)
    r = s.check()
    m = s.model() if r == z3.sat else None
    s.pop()
    if r == z3.unknown:
        s2 = z3.SolverFor("QF_NRA") if False else z3.Solver()
        s2.set("timeout", 60000)
        s2.add(s.assertions())
        s2.add(extra)
        r = s2.check()
        m = s2.model() if r == z3.sat else None
    ctx.stats.solver_s += time.time() - t0
    return r, m


def entails(ctx, premises, conclusions, tag=""):
    """premises |= every conclusion, for all values of solution variables and numeric parameters (on this path)"""
    s = solver_for(ctx)
    s.add(premises)
    for label, c in conclusions:
        ctx.stats.checks += 1
        full = tag + label
        ctx.stats.labels[full.split(" @")[0]] = ctx.stats.labels.get(full.split(" @")[0], 0) + 1
        c = z3.simplify(c)
        if z3.is_true(c):
            continue
        r, m = _query(ctx, s, z3.Not(c))
        if r == z3.unsat:
            continue
        if r == z3.unknown:
            ctx.stats.unknown += 1
            raise Inconclusive(full)
        if ctx.symbolic:
            raise Violation(full, ctx.values(m), describe(m))
        raise CheckFailed(full + "; solver vector: " + describe(m))


def satisfiable(ctx, terms, label):
    """reachability witness: the premises are consistent"""
    s = solver_for(ctx)
    r, m = _query(ctx, s, list(terms))
    if r == z3.sat:
        ctx.reach(label)
    return r == z3.sat


def describe(m):
    out = []
    for d in m.decls():
        n = d.name()
        if n.startswith("xp!"):
            v = m[d]
            if not (z3.is_false(v) or (z3.is_rational_value(v) and v.numerator_as_long() == 0)):
                out.append(f"{n.split('!', 2)[2]}={v}")
    return ", ".join(sorted(out))[:600]


def names_in(t, cache=None):
    """names of solver variables occurring in term"""
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith("xp!"):
                out.add(n.split("!", 2)[2])
        st.extend(x.children())
    return out


def problem_terms(p):
    """[(label, term)] of a captured problem; also checks all variables used were added"""
    known = set()
    for v in p.vars:
        known.add(v.name)
    terms = p.terms()
    for lab, t in terms:
        for n in names_in(t):
            if n not in known:
                raise CheckFailed(f"constraint uses variable {n} that was not added to the problem")
    return terms


# ------------------------------------------------------------------ topology in neutral form
class Net:
    """what the specification needs to know about a topology, read from the model objects (not from the optimizer's dictionaries)"""

    def __init__(self, top, params):
        self.top, self.p = top, params
        self.sites = dict(top.sites)
        self.links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in top.links.values()}
        self.demand = {}
        for did, d in top.demand_sites.items():
            for k in range(d.num_sites):
                self.demand[did if k == 0 else f"{did}_{k}"] = (d, d.demand)
        self.pops = [s for s, x in self.sites.items() if x.site_type == T.POP]

    def dist(self, s):
        return self.sites[s].site_type in (T.DN, T.POP)

    def edges(self):
        """all edges incl. imaginary ones"""
        e = list(self.links)
        e += [(SUPER, p) for p in self.pops]
        for did, (d, _) in self.demand.items():
            e += [(s.site_id, did) for s in d.connected_sites]
        return list(dict.fromkeys(e))

    def usable(self, ij):
        l = self.links[ij]
        return not (l.status_type in (T.UNA, T.UNR) or (l.is_wireless and (l.tx_sector is None or l.rx_sector is None)))

    def groups(self):
        """sites by position"""
        g = {}
        for s, x in self.sites.items():
            g.setdefault((x.longitude, x.latitude, x.altitude), []).append(s)
        return list(g.values())

    def mandatory(self):
        """sites the plan must contain: existing, proposed, ends of user-active links, usable POPs when requested"""
        act = {s for s, x in self.sites.items() if x.status_type in T.ACTIVE}
        if self.p.always_active_pops:
            act |= {s for s in self.pops if self.sites[s].status_type not in (T.UNA, T.UNR)}
        return act

    def allowed(self, group):
        """devices at an active location that may be used: active ones of the highest active type, or an upgrade of a CN"""
        order = {T.CN: 0, T.DN: 1, T.POP: 2}
        act = self.mandatory()
        a = [s for s in group if s in act]
        if not a:
            return set(group)
        tt = self.sites[max(a, key=lambda s: order[self.sites[s].site_type])].site_type
        return {s for s in group
                if (self.sites[s].site_type == tt and s in act) or (tt == T.CN and self.sites[s].site_type != T.CN)}

    def demand_value(self, did):
        return term(self.demand[did][1]) / term(self.p.oversubscription)

    def total_demand(self):
        return z3.Sum([self.demand_value(d) for d in self.demand]) if self.demand else z3.RealVal(0)


def zmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x > r, x, r)
    return r


def zmin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x < r, x, r)
    return r
