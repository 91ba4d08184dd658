"""Tiny named LP/MILP container solved with HiGHS through scipy.

This is the *reference* side of the monitors: it never imports oemof.
"""
import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp
from scipy.sparse import csr_matrix

INF = float("inf")


class LP:
    def __init__(self):
        self.index = {}
        self.names = []
        self.lb = []
        self.ub = []
        self.integer = []
        self.rows = []  # (tag, label, {name: coef}, lo, hi)
        self.costs = {}  # part -> {name: coef}
        self.const = {}  # part -> float

    # -- building ---------------------------------------------------------
    def var(self, name, lb=0.0, ub=INF, integer=False):
        if name in self.index:
            raise KeyError(f"duplicate variable {name}")
        self.index[name] = len(self.names)
        self.names.append(name)
        self.lb.append(float(lb))
        self.ub.append(float(ub))
        self.integer.append(bool(integer))
        return name

    def tighten(self, name, lb=None, ub=None, tag="bound"):
        terms = {name: 1.0}
        self.con(tag, name, terms, -INF if lb is None else lb,
                 INF if ub is None else ub)

    def con(self, tag, label, terms, lo=-INF, hi=INF):
        clean = {}
        for k, v in (terms.items() if isinstance(terms, dict) else terms):
            clean[k] = clean.get(k, 0.0) + float(v)
        self.rows.append((tag, label, clean, float(lo), float(hi)))

    def cost(self, part, name, coef):
        d = self.costs.setdefault(part, {})
        d[name] = d.get(name, 0.0) + float(coef)

    def constant(self, part, value):
        self.const[part] = self.const.get(part, 0.0) + float(value)

    # -- evaluating -------------------------------------------------------
    def cost_vector(self):
        c = np.zeros(len(self.names))
        for d in self.costs.values():
            for k, v in d.items():
                c[self.index[k]] += v
        return c

    def solve(self, relax=0.0, drop=(), extra=(), time_limit=20.0,
              integrality=True, presolve=None):
        """-> (status, objective, {name: value}); status in
        optimal / infeasible / unbounded / unknown"""
        n = len(self.names)
        if n == 0:
            return "optimal", sum(self.const.values()), {}
        data, ri, ci, lo, hi = [], [], [], [], []
        r = 0
        for tag, label, terms, l, h in list(self.rows) + list(extra):
            if tag in drop:
                continue
            if not terms:
                if l > 1e-7 or h < -1e-7:
                    return "infeasible", None, {}
                continue
            for k, v in terms.items():
                data.append(v)
                ri.append(r)
                ci.append(self.index[k])
            lo.append(l - relax)
            hi.append(h + relax)
            r += 1
        kw = {}
        if r:
            a = csr_matrix((data, (ri, ci)), shape=(r, n))
            kw["constraints"] = LinearConstraint(a, lo, hi)
        lb = np.array(self.lb) - relax
        ub = np.array(self.ub) + relax
        integer = np.array(self.integer, dtype=int)
        if not integrality:
            integer = integer * 0
        c = self.cost_vector()
        # presolve may return "infeasible or unbounded" (4): retry without.
        # With integers it was seen to cut off optima, so it stays off there.
        tries = (True, False) if not integer.any() else (False, True)
        if presolve is not None:
            tries = (presolve,)
        for presolve in tries:
            res = milp(c=c, integrality=integer, bounds=Bounds(lb, ub),
                       options={"mip_rel_gap": 0.0, "presolve": presolve,
                                "time_limit": time_limit}, **kw)
            if res.status in (0, 2, 3):
                break
        if res.status == 0:
            x = dict(zip(self.names, res.x))
            return "optimal", float(res.fun) + sum(self.const.values()), x
        if res.status == 2:
            return "infeasible", None, {}
        if res.status == 3:
            return "unbounded", None, {}
        return "unknown", None, {}

    def evaluate_cost(self, values):
        """-> ({part: value}, missing names)"""
        out, missing = {}, set()
        for part, d in self.costs.items():
            s = self.const.get(part, 0.0)
            for k, v in d.items():
                if k in values:
                    s += v * values[k]
                elif v:
                    missing.add(k)
            out[part] = s
        for part, v in self.const.items():
            if part not in self.costs:
                out[part] = v
        return out, missing

    def residuals(self, values, tol=1e-5):
        """Check every row/bound whose variables are all observed.

        -> (violations, counts) with counts = {tag: [evaluated, tight]}
        """
        viol, counts = [], {}
        for tag, label, terms, l, h in self.rows:
            if any(k not in values for k in terms):
                continue
            s = 0.0
            scale = 1.0
            for k, v in terms.items():
                x = v * values[k]
                s += x
                scale = max(scale, abs(x))
            c = counts.setdefault(tag, [0, 0])
            c[0] += 1
            t = tol * scale
            if s < l - t or s > h + t:
                viol.append((tag, label, s, l, h))
            elif l != h and (abs(s - l) <= t or abs(s - h) <= t):
                c[1] += 1
            elif l == h and any(abs(values[k]) > 1e-6 for k in terms):
                c[1] += 1
        for name, i in self.index.items():
            if name not in values:
                continue
            x = values[name]
            t = tol * max(1.0, abs(x))
            if x < self.lb[i] - t or x > self.ub[i] + t:
                viol.append(("vbound", name, x, self.lb[i], self.ub[i]))
            if self.integer[i] and abs(x - round(x)) > 1e-4:
                viol.append(("integrality", name, x, self.lb[i], self.ub[i]))
        return viol, counts
