"""Canonical form of a built model: what it says, not how it is stored.

Rows are compared as a multiset (names and order of constraints do not
matter); should two forms differ, `equivalent` asks the solver whether any of
several objectives tells the models apart before calling them different.
"""
import random
from collections import Counter

from pyomo.environ import (Constraint, Objective, SOSConstraint, Var, value,
                           minimize)
from pyomo.repn import generate_standard_repn


def num(x):
    if x is None:
        return None
    x = float(x)
    if abs(x) < 1e-12:
        return 0.0
    return float(f"{x:.9g}")


def var_name(v, rename=None):
    comp = v.parent_component()
    idx = v.index()
    idx = idx if isinstance(idx, tuple) else (idx,)
    key = []
    for k in idx:
        if isinstance(k, int) or k is None:
            key.append(str(k))
        else:
            s = str(getattr(k, "label", k))
            key.append(rename.get(s, s) if rename else s)
    return (comp.local_name,) + tuple(key)


class Canon:
    def __init__(self, m, rename=None):
        self.rows = Counter()
        self.vars = {}
        self.objective = {}
        self.constant = 0.0
        self.handles = {}
        names = {}

        def name(v):
            if id(v) not in names:
                names[id(v)] = var_name(v, rename)
            return names[id(v)]

        def terms(expr):
            r = generate_standard_repn(expr, compute_values=True)
            lin = Counter()
            for c, v in zip(r.linear_coefs, r.linear_vars):
                lin[name(v)] += float(c)
            for c, (a, b) in zip(r.quadratic_coefs, r.quadratic_vars):
                lin[(name(a), name(b))] += float(c)
            return lin, float(r.constant or 0), r.nonlinear_expr is not None

        used = set()
        for con in m.component_data_objects(Constraint, active=True):
            lin, c, nl = terms(con.body)
            lo = None if con.lower is None else value(con.lower) - c
            hi = None if con.upper is None else value(con.upper) - c
            row = tuple(sorted((k, num(x)) for k, x in lin.items()
                               if num(x) != 0.0))
            used.update(k for k, _ in row)
            if not row:
                continue
            if row[0][1] < 0:  # orientation carries no meaning
                row = tuple((k, num(-x)) for k, x in row)
                lo, hi = (None if hi is None else -hi,
                          None if lo is None else -lo)
            self.rows[(row, num(lo), num(hi), nl)] += 1
        for sos in m.component_data_objects(SOSConstraint, active=True):
            vs = tuple(name(v) for v in sos.variables)
            self.rows[("sos", sos.level, vs)] += 1
            used.update(vs)
        for obj in m.component_data_objects(Objective, active=True):
            lin, c, nl = terms(obj.expr)
            sign = 1 if obj.sense == minimize else -1
            self.constant = num(sign * c)
            self.objective = {k: num(sign * x) for k, x in lin.items()
                              if num(x) != 0.0}
            used.update(self.objective)
        for v in m.component_data_objects(Var, active=True):
            k = name(v)
            self.handles[k] = v
            if k in self.vars:
                raise RuntimeError(f"two variables called {k}")
            self.vars[k] = (num(v.lb), num(v.ub), v.is_binary(),
                            v.is_integer(), num(v.value) if v.fixed
                            else None)

    def diff(self, other):
        """-> list of differences (empty: the same model)"""
        out = []
        for k in sorted(set(self.vars) | set(other.vars), key=str):
            if self.vars.get(k) != other.vars.get(k):
                out.append(f"variable {k}: {self.vars.get(k)} / "
                           f"{other.vars.get(k)}")
        for k, n in ((self.rows - other.rows) + Counter()).items():
            out.append(f"row only in the first ({n}): {k}"[:250])
        for k, n in ((other.rows - self.rows) + Counter()).items():
            out.append(f"row only in the second ({n}): {k}"[:250])
        for k in sorted(set(self.objective) | set(other.objective), key=str):
            a, b = self.objective.get(k, 0), other.objective.get(k, 0)
            if not near(a, b):
                out.append(f"objective {k}: {a} / {b}")
        if not near(self.constant, other.constant):
            out.append(f"constant {self.constant} / {other.constant}")
        return out


def near(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def tell_apart(m1, c1, m2, c2, solver="glpk", seed=0, k=3):
    """Solve both with their own and with k common random objectives over
    the flows -> None (no difference seen) / text"""
    from . import observe
    rng = random.Random(seed)
    common = sorted((x for x in c1.vars if x[0] == "flow" and x in c2.vars),
                    key=str)
    if {x for x in c1.vars if x[0] == "flow"} != {
            x for x in c2.vars if x[0] == "flow"}:
        return "different flows"
    trials = [None] + [{x: rng.choice([-2, -1, 0, 1, 2, 3]) for x in common}
                       for _ in range(k)]
    bound = 1000.0
    for weights in trials:
        res = []
        for m, c in ((m1, c1), (m2, c2)):
            r = observe.Run()
            r.model = m
            if weights is not None:
                m.objective.deactivate()
                if hasattr(m, "vf_box"):
                    m.del_component("vf_box")
                    m.del_component("vf_obj")
                m.vf_box = Constraint(expr=(
                    -bound, sum(c.handles[x] for x in common), bound))
                m.vf_obj = Objective(expr=sum(
                    w * c.handles[x] for x, w in weights.items()))
            try:
                answer = plain(m, solver)
            finally:
                if weights is not None:
                    m.del_component("vf_box")
                    m.del_component("vf_obj")
                    m.objective.activate()
            res.append(answer)
        (s1, o1), (s2, o2) = res
        if "unknown" in (s1, s2):
            continue
        if s1 != s2:
            return f"{s1} / {s2}"
        if s1 == "optimal" and abs(o1 - o2) > 1e-4 + 1e-5 * (
                abs(o1) + abs(o2)):
            return f"optimum {o1} / {o2}"
    return None


def plain(m, solver):
    from pyomo.common.errors import ApplicationError
    from pyomo.environ import SolverFactory, TerminationCondition as T
    from . import observe
    opt = SolverFactory(solver)
    if solver in observe.LIMIT:
        opt.options[observe.LIMIT[solver]] = observe.SECONDS
    try:
        res = opt.solve(m, load_solutions=False)
    except ApplicationError:
        # glpk sometimes dies in its presolver
        return plain(m, "cbc") if solver == "glpk" else ("unknown", None)
    tc = res.solver.termination_condition
    if tc == T.optimal:
        m.solutions.load_from(res)
        return "optimal", value(next(m.component_data_objects(
            Objective, active=True)))
    if tc in (T.infeasible, T.noSolution, T.other, T.infeasibleOrUnbounded):
        return "infeasible", None
    if tc == T.unbounded:
        return "unbounded", None
    return "unknown", None


def same_model(m1, m2, out, monitor, rename=None, seed=0, nontrivial=True,
               what=""):
    """Monitor: both built models describe the same problem."""
    a, b = Canon(m1), Canon(m2, rename)
    d = a.diff(b)
    out.see(monitor, nontrivial)
    out.see("rows compared", True, sum(a.rows.values()))
    if d:
        t = tell_apart(m1, a, m2, b, seed=seed)
        if t is None:
            out.inconclusive = f"{monitor}: written differently, but no " \
                f"objective tells them apart: {d[0]}"
        else:
            out.bad(monitor, f"{what} {t}; {'; '.join(d[:3])}")
    return a, b
