"""Independent reference semantics: JSON-like system spec -> named LP/MILP.

This module never imports oemof.  It states what the documentation promises
(component equations, limits, objective parts) as rows of a small LP.  The
monitors compare executions of the real code with it:

* every row is evaluated at the trajectory the real run produced,
* the optimum of the reference bounds the real optimum from both sides,
* the reference decides whether the real run had to succeed or to fail.

Spec
----
{"inc": [h, ...], "buses": [{"label", "balanced", "inputs", "outputs"}],
 "nodes": [{"kind", "label", "inputs": {bus: FLOW}, "outputs": {bus: FLOW},..}]
 "cons": [{"type": ...}], "periods": None | {"years": [...], "counts": [...],
 "last_span": int}, "discount_rate", "use_remaining_value", "objw"}
FLOW = keyword arguments of Flow; "nominal_capacity" is a number, None or
{"invest": {...}}; "nonconvex" a dict.
"""
from .lp import INF, LP


def at(v, t):
    """Value of a scalar-or-list parameter."""
    return v[t] if isinstance(v, (list, tuple)) else v


def mx(v):
    return max(v) if isinstance(v, (list, tuple)) else v


def mn(v):
    return min(v) if isinstance(v, (list, tuple)) else v


def annuity(capex, n, wacc):
    if wacc == 0:
        return capex / n
    return capex * (wacc * (1 + wacc) ** n) / ((1 + wacc) ** n - 1)


def all_flows(spec):
    """-> {(i, o): FLOW} for the whole spec."""
    out = {}
    for node in list(spec["buses"]) + list(spec["nodes"]):
        n = node["label"]
        ins, outs = dict(node.get("inputs") or {}), dict(
            node.get("outputs") or {})
        if node.get("kind") == "GenericCHP":
            ins = dict(node["fuel_input"])
            outs = dict(node["electrical_output"])
            outs.update(node["heat_output"])
        if node.get("kind") == "CAES":
            ins = dict(node["electrical_input"])
            ins.update(node["fuel_input"])
            outs = dict(node["electrical_output"])
        for b, f in ins.items():
            out[(b, n)] = f
        for b, f in outs.items():
            out[(n, b)] = f
    return out


class Ref:
    def __init__(self, spec, **opt):
        self.spec = spec
        self.opt = opt
        self.lp = LP()
        self.inc = [float(x) for x in spec["inc"]]
        self.T = len(self.inc)
        self.tw = spec.get("tsam_weighting") or [1] * self.T
        per = spec.get("periods")
        if per:
            self.years = [y - per["years"][0] for y in per["years"]]
            self.P = len(self.years)
            self.period_of = [p for p, c in enumerate(per["counts"])
                              for _ in range(c)]
            self.end_year = self.years[-1] + per.get("last_span", 1)
            self.rate = spec.get("discount_rate", 0.02)
        else:
            self.years, self.P = [0], 1
            self.period_of = [0] * self.T
            self.end_year = 1
            self.rate = None
        self.multi = bool(per)
        self.flows = all_flows(spec)
        self.objw = spec.get("objw") or self.inc
        for (i, o), f in self.flows.items():
            self._flow(i, o, f)
        for b in list(spec["buses"]):
            self._bus(b)
        for n in spec["nodes"]:
            getattr(self, "_node_" + n["kind"].lower())(n)
        for c in spec.get("cons", []):
            getattr(self, "_cons_" + c["type"])(c)

    # ------------------------------------------------------------- flows
    @staticmethod
    def _bidirectional(f):
        return mn(f.get("minimum", 0) or 0) < 0

    def _flow(self, i, o, f):
        lp = self.lp
        T = self.T
        nom = f.get("nominal_capacity")
        invest = nom["invest"] if isinstance(nom, dict) else None
        nc = f.get("nonconvex")
        fix = f.get("fix")
        lo = f.get("minimum", 0)
        hi = f.get("maximum", 1)
        lo = 0 if lo is None else lo
        hi = 1 if hi is None else hi
        bid = self._bidirectional(f)
        names = []
        for t in range(T):
            lb, ub = (-INF if bid else 0.0), INF
            if invest is None and nom is not None:
                if fix is not None:
                    lb = ub = at(fix, t) * nom
                else:
                    ub = at(hi, t) * nom
                    if nc is None:
                        lb = at(lo, t) * nom
            names.append(lp.var(("flow", i, o, t), lb, ub))
        # time-coupled limits on flows without investment
        if nom is not None and invest is None:
            for key, sgn in (("full_load_time_max", 1),
                             ("full_load_time_min", -1)):
                if f.get(key) is not None:
                    terms = {names[t]: self.inc[t] * self.tw[t]
                             for t in range(T)}
                    v = f[key] * nom
                    lp.con("full_load", (key, i, o), terms,
                           -INF if sgn > 0 else v, v if sgn > 0 else INF)
            g = f.get("positive_gradient_limit")
            if g is not None:
                for t in range(1, T):
                    lp.con("gradient", ("pos", i, o, t),
                           {names[t]: 1, names[t - 1]: -1}, hi=at(g, t) * nom)
            g = f.get("negative_gradient_limit")
            if g is not None:
                for t in range(1, T):
                    lp.con("gradient", ("neg", i, o, t),
                           {names[t - 1]: 1, names[t]: -1}, hi=at(g, t) * nom)
        if f.get("integer"):
            for t in range(T):
                z = lp.var(("integer_flow", i, o, t), 0, INF, True)
                lp.con("integer", (i, o, t), {z: 1, names[t]: -1}, 0, 0)
        # cost per quantity
        vc = f.get("variable_costs", 0)
        if vc is not None:
            for t in range(T):
                w = self.objw[t] * self.tw[t]
                if self.multi:
                    w *= (1 + self.rate) ** -self.years[self.period_of[t]]
                lp.cost("variable", names[t], at(vc, t) * w)
        # lifetime of an exogenous capacity (multi-period)
        if self.multi:
            life = f.get("lifetime")
            eff = None if life is None else life - (f.get("age") or 0)
            if life is not None:
                for t in range(T):
                    if eff <= self.years[self.period_of[t]]:
                        lp.con("lifetime", (i, o, t), {names[t]: 1}, 0, 0)
            fc = f.get("fixed_costs")
            if fc is not None and nom is not None and invest is None:
                rng = self.end_year if eff is None else min(
                    self.end_year, eff)
                lp.constant("fixed", sum(nom * at(fc, y)
                                         for y in range(int(rng))))
        if nc is not None:
            self._nonconvex(i, o, f, nc, nom, invest, lo, hi, names)
        elif invest is not None:
            self._invest_flow(i, o, f, invest, lo, hi, fix, names)

    def _capacity(self, key, inv, interest, annualise_offset,
                  stage="investment"):
        """invest / total / decommissioning variables; key = (i, o) or (n,)
        -> list of total-variable names per period"""
        lp = self.lp
        P = self.P
        nonconv = bool(inv.get("nonconvex"))
        lo, hi = inv.get("minimum", 0), inv.get("maximum", INF)
        existing = inv.get("existing", 0)
        inames, totals = [], []
        for p in range(P):
            v = lp.var(("invest",) + key + (p,),
                       0 if nonconv else at(lo, p), at(hi, p))
            inames.append(v)
            if nonconv:
                s = lp.var(("invest_status",) + key + (p,), 0, 1, True)
                lp.con("invest_bounds", key + (p, "min"),
                       {v: 1, s: -at(lo, p)}, lo=0)
                lp.con("invest_bounds", key + (p, "max"),
                       {v: 1, s: -at(hi, p)}, hi=0)
        life = inv.get("lifetime")
        for p in range(P):
            tot = lp.var(("total",) + key + (p,), 0, INF)
            # capacity present in p: everything installed up to p that has
            # not reached its lifetime, plus the pre-existing capacity
            terms = {tot: 1.0}
            for q in range(p + 1):
                if self.multi and q < p and \
                        self.years[p] - self.years[q] >= life:
                    continue
                terms[inames[q]] = -1.0
            ex = existing
            if self.multi and p > 0 and \
                    life - inv.get("age", 0) <= self.years[p]:
                ex = 0
            lp.con("capacity", key + (p,), terms, ex, ex)
            totals.append(tot)
            if self.multi and inv.get("overall_maximum") is not None:
                lp.con("overall", key + (p, "max"), {tot: 1},
                       hi=inv["overall_maximum"])
        if self.multi and inv.get("overall_minimum") is not None:
            lp.con("overall", key + ("min",), {totals[-1]: 1},
                   lo=inv["overall_minimum"])
        ep, off = inv.get("ep_costs", 0), inv.get("offset", 0)
        self.period_cost = getattr(self, "period_cost", {})
        for p in range(P):
            s = ("invest_status",) + key + (p,)
            if not self.multi:
                lp.cost("investment", inames[p], at(ep, p))
                if nonconv:
                    lp.cost("investment", s, at(off, p))
                self._pc(p, inames[p], at(ep, p), stage)
                if nonconv:
                    self._pc(p, s, at(off, p), stage)
                continue
            left = self.end_year - self.years[p]
            dur = min(left, life)
            c = annuity(at(ep, p), life, interest) / annuity(1, dur, interest)
            lp.cost("investment", inames[p], c)
            self._pc(p, inames[p], c, stage)
            if nonconv:
                co = annuity(at(off, p), life, interest) \
                    if annualise_offset else at(off, p)
                lp.cost("investment", s, co)
                self._pc(p, s, co, stage)
            if self.spec.get("use_remaining_value") and left < life:
                last = (lambda v: v[-1] if isinstance(v, (list, tuple))
                        else v)
                # the remaining capacity is valued with the cost level of
                # the last period instead of the one of the purchase
                lp.cost("investment", inames[p], last(ep) - at(ep, p))
                if nonconv:
                    lp.cost("investment", s, last(off) - at(off, p))
            fc = inv.get("fixed_costs")
            if fc is not None:
                lim = int(min(self.end_year, self.years[p] + life))
                lp.cost("fixed", inames[p], sum(
                    at(fc, y) for y in range(self.years[p], lim)))
        if self.multi and inv.get("fixed_costs") is not None:
            lim = int(min(self.end_year, life - inv.get("age", 0)))
            lp.constant("fixed", sum(existing * at(inv["fixed_costs"], y)
                                     for y in range(lim)))
        return inames, totals

    def _pc(self, p, name, c, stage):
        d = self.period_cost.setdefault((stage, p), {})
        d[name] = d.get(name, 0.0) + c

    def _invest_flow(self, i, o, f, inv, lo, hi, fix, names):
        lp = self.lp
        _, tot = self._capacity((i, o), inv, 0.05, True)
        for t in range(self.T):
            k = tot[self.period_of[t]]
            if fix is not None:
                lp.con("invest_flow", ("fix", i, o, t),
                       {names[t]: 1, k: -at(fix, t)}, 0, 0)
            else:
                lp.con("invest_flow", ("max", i, o, t),
                       {names[t]: 1, k: -at(hi, t)}, hi=0)
            if mn(lo) != 0 or mx(lo) != 0:
                lp.con("invest_flow", ("min", i, o, t),
                       {names[t]: 1, k: -at(lo, t)}, lo=0)
        for key, sgn in (("full_load_time_max", 1),
                         ("full_load_time_min", -1)):
            if f.get(key) is not None:
                terms = {names[t]: self.inc[t] * self.tw[t]
                         for t in range(self.T)}
                for k in tot:
                    terms[k] = -f[key]
                lp.con("full_load", (key, i, o), terms,
                       -INF if sgn > 0 else 0, 0 if sgn > 0 else INF)

    # --------------------------------------------------------- nonconvex
    def _nonconvex(self, i, o, f, nc, nom, invest, lo, hi, names):
        lp, T = self.lp, self.T
        init = nc.get("initial_status", 0)
        up, down = nc.get("minimum_uptime", 0), nc.get("minimum_downtime", 0)
        st = [lp.var(("status", i, o, t), 0, 1, True) for t in range(T)]
        ff = int(at(up, 0) if init else at(down, 0))
        for t in range(min(ff, T)):
            lp.con("initial", (i, o, t), {st[t]: 1}, init, init)
        sn = [lp.var(("status_nominal", i, o, t), 0, INF) for t in range(T)]
        if invest is None:
            for t in range(T):
                lp.con("status", (i, o, t), {sn[t]: 1, st[t]: -nom}, 0, 0)
        else:
            nonconv = bool(invest.get("nonconvex"))
            ilo, ihi = invest.get("minimum", 0), invest.get("maximum", INF)
            for p in range(self.P):
                v = lp.var(("invest", i, o, p), 0 if nonconv else at(ilo, p),
                           at(ihi, p))
                lp.cost("investment", v, at(invest.get("ep_costs", 0), p))
                self.period_cost = getattr(self, "period_cost", {})
                self._pc(p, v, at(invest.get("ep_costs", 0), p), "nc")
                if nonconv:
                    s = lp.var(("invest_status", i, o, p), 0, 1, True)
                    lp.con("invest_bounds", (i, o, p, "min"),
                           {v: 1, s: -at(ilo, p)}, lo=0)
                    lp.con("invest_bounds", (i, o, p, "max"),
                           {v: 1, s: -at(ihi, p)}, hi=0)
                    lp.cost("investment", s,
                            at(invest.get("offset", 0), p))
                    self._pc(p, s, at(invest.get("offset", 0), p), "nc")
            for t in range(T):
                p = self.period_of[t]
                ex = invest.get("existing", 0)
                v, m = ("invest", i, o, p), at(ihi, p) + ex
                # status_nominal == status * (invest + existing)
                lp.con("status", (i, o, t, 1), {sn[t]: 1, st[t]: -m}, hi=0)
                lp.con("status", (i, o, t, 2), {sn[t]: 1, v: -1}, hi=ex)
                lp.con("status", (i, o, t, 3), {sn[t]: 1, v: -1, st[t]: -m},
                       lo=ex - m)
        for t in range(T):
            lp.con("status_flow", ("max", i, o, t),
                   {names[t]: 1, sn[t]: -at(hi, t)}, hi=0)
            lp.con("status_flow", ("min", i, o, t),
                   {names[t]: 1, sn[t]: -at(lo, t)}, lo=0)
        want_up = (nc.get("startup_costs") is not None
                   or nc.get("maximum_startups") is not None)
        want_dn = (nc.get("shutdown_costs") is not None
                   or nc.get("maximum_shutdowns") is not None)
        for want, name, sgn, lim, cost in (
                (want_up, "startup", 1, "maximum_startups", "startup_costs"),
                (want_dn, "shutdown", -1, "maximum_shutdowns",
                 "shutdown_costs")):
            if not want:
                continue
            xs = []
            for t in range(T):
                x = lp.var((name, i, o, t), 0, 1, True)
                xs.append(x)
                terms = {x: 1, st[t]: -sgn}
                rhs = 0
                if t:
                    terms[st[t - 1]] = sgn
                else:
                    rhs = -sgn * init
                lp.con(name, (i, o, t), terms, lo=rhs)
                if nc.get(cost) is not None:
                    lp.cost(name, x, at(nc[cost], t) * self.tw[t])
            if nc.get(lim) is not None:
                lp.con("max_" + name, (i, o), {x: 1 for x in xs},
                       hi=nc[lim])
        for t in range(T):
            if nc.get("activity_costs") is not None:
                lp.cost("activity", st[t],
                        at(nc["activity_costs"], t) * self.tw[t])
            if nc.get("inactivity_costs") is not None:
                c = at(nc["inactivity_costs"], t) * self.tw[t]
                lp.cost("inactivity", st[t], -c)
                lp.constant("inactivity", c)
        mode = self.opt.get("runlength", "code")
        if mx(up) > 0:
            self._runlength("minimum_uptime", i, o, st, up, init, ff, 1, mode)
        if mx(down) > 0:
            self._runlength("minimum_downtime", i, o, st, down, init, ff, 0,
                            mode)
        for key, sgn in (("positive_gradient_limit", 1),
                         ("negative_gradient_limit", -1)):
            g = nc.get(key)
            if g is None:
                continue
            for t in range(1, T):
                terms = {names[t]: sgn, names[t - 1]: -sgn}
                if invest is None:
                    lp.con("nc_gradient", (key, i, o, t), terms,
                           hi=at(g, t) * nom)
                else:
                    terms[("invest", i, o, self.period_of[t])] = -at(g, t)
                    lp.con("nc_gradient", (key, i, o, t), terms,
                           hi=at(g, t) * invest.get("existing", 0))

    def _runlength(self, tag, i, o, st, need, init, ff, target, mode):
        """After switching to `target` the status has to stay there for
        need[t] steps.

        mode "loose": a run cut by the horizon is fine;
        "strict": a switch that cannot complete is forbidden;
        "code": as "strict", but a switch in the very last step is fine.
        """
        lp, T = self.lp, self.T
        for t in range(T):
            n = int(at(need, t))
            if n <= 0 or t < ff:
                continue
            if t == 0 and init == target:
                continue
            if mode == "code" and t >= T - 1:
                continue
            end = min(t + n, T)
            if mode == "loose":
                need_len = end - t
            else:
                need_len = n
            sgn = 1 if target else -1
            # sgn*(s_t - s_{t-1}) * need_len <= sum_{u} [s_u == target]
            terms, lo = {}, 0.0

            def add(u, c):
                terms[st[u]] = terms.get(st[u], 0.0) + c

            for u in range(t, end):
                add(u, sgn)
            if not target:
                lo -= end - t
            add(t, -sgn * need_len)
            if t:
                add(t - 1, sgn * need_len)
            else:
                lo -= sgn * need_len * init
            lp.con(tag, (i, o, t), terms, lo=lo)

    # -------------------------------------------------------------- nodes
    def _bus(self, b):
        if not b.get("balanced", True):
            return
        n = b["label"]
        for t in range(self.T):
            terms = {}
            for (i, o) in self.flows:
                if o == n:
                    terms[("flow", i, o, t)] = 1.0
                elif i == n:
                    terms[("flow", i, o, t)] = -1.0
            if terms:
                self.lp.con("balance", (n, t), terms, 0, 0)

    def _node_source(self, n):
        pass

    _node_sink = _node_source

    def _node_caes(self, n):
        lp, q, lab = self.lp, n["params"], n["label"]
        (el,), (fuel,) = n["electrical_input"], n["fuel_input"]
        (out,) = n["electrical_output"]
        for t in range(self.T):
            v = {}
            for name in ("cmp_p", "cmp_p_max", "cmp_q_out_sum", "cmp_q_waste",
                         "exp_p", "exp_p_max", "exp_q_in_sum",
                         "exp_q_fuel_in", "exp_q_add_in", "cav_level",
                         "cav_e_in", "cav_e_out", "tes_level", "tes_e_in",
                         "tes_e_out"):
                v[name] = lp.var((name, lab, t))
            for name in ("cmp_st", "exp_st"):
                v[name] = lp.var((name, lab, t), 0, 1, True)

            def row(what, terms, lo=0, hi=0):
                lp.con("caes_" + what, (lab, t), {
                    v[k] if isinstance(k, str) else k: c
                    for k, c in terms.items()}, lo, hi)

            row("port", {("flow", el, lab, t): 1, "cmp_p": -1})
            row("port", {("flow", fuel, lab, t): 1, "exp_q_fuel_in": -1})
            row("port", {("flow", lab, out, t): 1, "exp_p": -1})
            last = ("cav_level", lab, t - 1)
            for k in ("cmp", "exp"):
                m, b = q[k + "_p_max_m"], q[k + "_p_max_b"]
                terms = {k + "_p_max": 1}
                if t:
                    terms[last] = -m
                row("power", terms, b, b)
                row("power", {k + "_p": 1, k + "_p_max": -1}, -INF, 0)
                row("status", {k + "_p": 1, k + "_st": -q[k + "_p_min"]},
                    0, INF)
                row("status", {k + "_p": 1, k + "_st":
                               -(m * q["cav_level_max"] + b)}, -INF, 0)
            row("heat", {"cmp_q_out_sum": 1, "cmp_p": -q["cmp_q_out_m"],
                         "cmp_st": -q["cmp_q_out_b"]})
            row("heat", {"cmp_q_out_sum": 1, "cmp_q_waste": -1,
                         "tes_e_in": -1})
            r = q["cmp_q_tes_share"]
            row("share", {"cmp_q_waste": r, "tes_e_in": r - 1})
            row("heat", {"exp_q_in_sum": 1, "exp_p": -q["exp_q_in_m"],
                         "exp_st": -q["exp_q_in_b"]})
            row("heat", {"exp_q_in_sum": 1, "exp_q_fuel_in": -1,
                         "exp_q_add_in": -1, "tes_e_out": -1})
            r = q["exp_q_tes_share"]
            row("share", {"exp_q_fuel_in": r, "exp_q_add_in": r - 1,
                          "tes_e_out": r - 1})
            row("cavern", {"cav_e_in": 1, "cmp_p": -q["cav_e_in_m"],
                           "cmp_st": -q["cav_e_in_b"]})
            row("cavern", {"cav_e_out": 1, "exp_p": -q["cav_e_out_m"],
                           "exp_st": -q["cav_e_out_b"]})
            h = self.inc[t]
            terms = {"cav_level": q["cav_eta_temp"], "cav_e_in": -h,
                     "cav_e_out": h}
            heat = {"tes_level": 1, "tes_e_in": -h, "tes_e_out": h}
            if t:
                terms[last] = -1
                heat[("tes_level", lab, t - 1)] = -1
            row("level", terms)
            row("level", heat)
            row("size", {"cav_level": 1}, -INF, q["cav_level_max"])
            row("size", {"tes_level": 1}, -INF, q["tes_level_max"])

    def _node_pwl(self, n):
        (i,), (o,) = n["inputs"], n["outputs"]
        pts = n["in_breakpoints"]
        f = [sum(a * x ** k for k, a in enumerate(n["function"]))
             for x in pts]
        for t in range(self.T):
            one, x, y = {}, {("flow", i, n["label"], t): 1}, {
                ("flow", n["label"], o, t): 1}
            for s in range(len(pts) - 1):
                z = self.lp.var(("pwl_on", n["label"], s, t), 0, 1, True)
                d = self.lp.var(("pwl_part", n["label"], s, t))
                w = pts[s + 1] - pts[s]
                self.lp.con("pwl", ("part", n["label"], s, t),
                            {d: 1, z: -w}, hi=0)
                one[z] = 1
                x[z], x[d] = -pts[s], -1
                y[z], y[d] = -f[s], -(f[s + 1] - f[s]) / w
            self.lp.con("pwl", ("one", n["label"], t), one, 1, 1)
            self.lp.con("pwl", ("in", n["label"], t), x, 0, 0)
            self.lp.con("pwl", ("out", n["label"], t), y, 0, 0)

    def _node_converter(self, n):
        cf = n.get("conversion_factors") or {}
        for i in n["inputs"]:
            for o in n["outputs"]:
                for t in range(self.T):
                    self.lp.con("converter", (n["label"], i, o, t), {
                        ("flow", i, n["label"], t): at(cf.get(o, 1), t),
                        ("flow", n["label"], o, t): -at(cf.get(i, 1), t)},
                        0, 0)

    def _node_link(self, n):
        for i, o, c in n["conversion_factors"]:
            for t in range(self.T):
                self.lp.con("link", (n["label"], i, o, t), {
                    ("flow", n["label"], o, t): 1.0,
                    ("flow", i, n["label"], t): -at(c, t)}, 0, 0)

    def _node_extraction(self, n):
        lab = n["label"]
        (fuel,) = n["inputs"]
        ((main, full),) = n["conversion_factor_full_condensation"].items()
        (tap,) = [b for b in n["outputs"] if b != main]
        cf = n["conversion_factors"]
        for t in range(self.T):
            e_m, e_t, e_f = at(cf[main], t), at(cf[tap], t), at(full, t)
            h, p, q = (("flow", fuel, lab, t), ("flow", lab, main, t),
                       ("flow", lab, tap, t))
            beta = (e_f - e_m) / e_t
            self.lp.con("extraction", (lab, t, "fuel"),
                        {h: e_f, p: -1, q: -beta}, 0, 0)
            self.lp.con("extraction", (lab, t, "ratio"),
                        {p: e_t, q: -e_m}, lo=0)

    def _node_offset(self, n):
        lab = n["label"]
        ref = None
        for b, f in n["inputs"].items():
            if f.get("nonconvex") is not None:
                ref = (b, lab)
        for b, f in n["outputs"].items():
            if f.get("nonconvex") is not None:
                ref = (lab, b)
        cf = n.get("conversion_factors") or {}
        off = n.get("normed_offsets") or {}
        others = [(b, (b, lab)) for b in n["inputs"] if (b, lab) != ref]
        others += [(b, (lab, b)) for b in n["outputs"] if (lab, b) != ref]
        for b, key in others:
            for t in range(self.T):
                self.lp.con("offset", (lab, b, t), {
                    ("flow",) + key + (t,): 1.0,
                    ("flow",) + ref + (t,): -at(cf.get(b, 1), t),
                    ("status_nominal",) + ref + (t,): -at(off.get(b, 0), t)},
                    0, 0)

    def _node_genericchp(self, n):
        lp, lab = self.lp, n["label"]
        ((fb, ff),) = n["fuel_input"].items()
        ((eb, ef),) = n["electrical_output"].items()
        ((hb, hf),) = n["heat_output"].items()
        pe, pf, ph = (ef["custom_properties"], ff["custom_properties"],
                      hf["custom_properties"])
        for t in range(self.T):
            hi_p, lo_p = at(pe["P_max_woDH"], t), at(pe["P_min_woDH"], t)
            hi_f = hi_p / at(pe["Eta_el_max_woDH"], t)
            lo_f = lo_p / at(pe["Eta_el_min_woDH"], t)
            a2 = (hi_f - lo_f) / (hi_p - lo_p)
            a1 = hi_f - a2 * hi_p
            beta = at(n["beta"], t)
            cw = at(ph["Q_CW_min"], t)
            H, P, Q = (("flow", fb, lab, t), ("flow", lab, eb, t),
                       ("flow", lab, hb, t))
            Y = lp.var(("Y", lab, t), 0, 1, True)
            W = lp.var(("P_woDH", lab, t), 0, INF)
            k = (lab, t)
            lp.con("chp", k + ("woDH",), {H: 1, Y: -a1, W: -a2}, 0, 0)
            lp.con("chp", k + ("fuel",), {H: 1, Y: -a1, P: -a2,
                                          Q: -a2 * beta}, 0, 0)
            lp.con("chp", k + ("max",), {H: 1, Y: -hi_f}, hi=0)
            lp.con("chp", k + ("min",), {H: 1, Y: -lo_f}, lo=0)
            share = at(pf["H_L_FG_share_max"], t)
            terms = {P: 1, Q: 1, H: share - 1, Y: cw}
            if n["back_pressure"]:
                lp.con("chp", k + ("loss",), terms, 0, 0)
            else:
                lp.con("chp", k + ("loss",), terms, hi=0)
            if pf.get("H_L_FG_share_min") is not None:
                lp.con("chp", k + ("lossmin",), {
                    P: 1, Q: 1, H: at(pf["H_L_FG_share_min"], t) - 1,
                    Y: cw}, lo=0)

    def _node_storage(self, n):
        lp, T, lab = self.lp, self.T, n["label"]
        inv = n["nominal_capacity"]
        inv = inv["invest"] if isinstance(inv, dict) else None
        (bi,) = n["inputs"]
        (bo,) = n["outputs"]
        lo, hi = n.get("min_storage_level", 0), n.get("max_storage_level", 1)
        init = n.get("initial_storage_level")
        E = []
        if inv is None:
            nom = n["nominal_capacity"]
            for t in range(T + 1):
                E.append(lp.var(("storage_content", lab, t),
                                -INF if t == 0 and init is not None
                                else at(lo, t) * nom,
                                INF if t == 0 and init is not None
                                else at(hi, t) * nom))
            if init is not None:
                lp.con("storage_init", (lab,), {E[0]: 1}, init * nom,
                       init * nom)
            tot = None
        else:
            _, tot = self._capacity((lab,), inv, self.rate, False,
                                    stage="investment")
            for t in range(T + 1):
                E.append(lp.var(("storage_content", lab, t), 0, INF))
            for t in range(T + 1):
                k = tot[self.period_of[min(t, T - 1)]]
                lp.con("storage_level", ("max", lab, t),
                       {E[t]: 1, k: -at(hi, t)}, hi=0)
                if mx(lo) > 0:
                    lp.con("storage_level", ("min", lab, t),
                           {E[t]: 1, k: -at(lo, t)}, lo=0)
            if self.multi:
                lp.con("storage_init", (lab,), {E[0]: 1}, 0, 0)
            elif init is None:
                lp.con("storage_init", (lab,), {E[0]: 1, tot[0]: -1}, hi=0)
            else:
                lp.con("storage_init", (lab,), {E[0]: 1, tot[0]: -init},
                       0, 0)
        for t in range(T):
            h = self.inc[t]
            keep = (1 - at(n.get("loss_rate", 0), t)) ** h
            gam = at(n.get("fixed_losses_relative", 0), t) * h
            terms = {
                E[t + 1]: 1.0, E[t]: -keep,
                ("flow", bi, lab, t):
                    -at(n.get("inflow_conversion_factor", 1), t) * h,
                ("flow", lab, bo, t):
                    h / at(n.get("outflow_conversion_factor", 1), t)}
            rhs = -at(n.get("fixed_losses_absolute", 0), t) * h
            if inv is None:
                rhs -= gam * nom
            else:
                terms[tot[self.period_of[t]]] = gam
            lp.con("storage_balance", (lab, t), terms, rhs, rhs)
        if n.get("balanced", True) and not (self.multi and inv is not None):
            lp.con("storage_balanced", (lab,), {E[T]: 1, E[0]: -1}, 0, 0)
        for key, a, b in (
                ("invest_relation_input_capacity", (bi, lab), None),
                ("invest_relation_output_capacity", (lab, bo), None),
                ("invest_relation_input_output", (bi, lab), (lab, bo))):
            r = n.get(key)
            if r is None:
                continue
            for p in range(self.P):
                other = ("total",) + b + (p,) if b else tot[p]
                lp.con("invest_relation", (key, lab, p),
                       {("total",) + a + (p,): 1, other: -at(r, p)}, 0, 0)
        u = n.get("constant_soc_until")
        if u is not None:
            fr = n["fraction_saturation_charging"]
            fl = n["inputs"][bi]
            for t in range(T):
                pm = fl["nominal_capacity"] * at(fl.get("maximum", 1), t)
                full = nom * at(hi, t)
                # straight line: pm at u*full, fr*pm at full
                slope = (fr * pm - pm) / (full - u * full)
                lp.con("soc", (lab, t), {
                    ("flow", bi, lab, t): 1, E[t + 1]: -slope},
                    hi=pm - slope * u * full)
        sc = n.get("storage_costs")
        if sc is not None:
            for t in range(T):
                lp.cost("storage", E[t + 1], at(sc, t))
        fc = n.get("fixed_costs", 0)
        if inv is None and fc:
            lp.constant("fixed", sum(
                nom * at(fc, y) for y in range(int(self.end_year))))

    # -------------------------------------------------------- constraints
    def _cons_integral(self, c):
        """c: keyword, flows (None = all having it), upper, lower"""
        key = c["keyword"]
        terms = {}
        flows = c.get("flows")
        sel = [tuple(x) for x in flows] if flows else [
            k for k, f in self.flows.items()
            if key in (f.get("custom_properties") or {})]
        for i, o in sel:
            w = self.flows[(i, o)]["custom_properties"][key]
            for t in range(self.T):
                terms[("flow", i, o, t)] = (
                    at(w, t) * self.inc[t] * self.tw[t])
        self.lp.con("integral", key, terms,
                    -INF if c.get("lower") is None else c["lower"],
                    INF if c.get("upper") is None else c["upper"])

    def _cons_integral_period(self, c):
        key = c["keyword"]
        for p in range(self.P):
            terms = {}
            for (i, o), f in self.flows.items():
                w = (f.get("custom_properties") or {}).get(key)
                if w is None or (c.get("flows") and
                                 [i, o] not in c["flows"]):
                    continue
                for t in range(self.T):
                    if self.period_of[t] == p:
                        terms[("flow", i, o, t)] = at(w, t) * self.inc[t]
            self.lp.con("integral", (key, p), terms, hi=at(c["limit"], p))

    def _cons_investment_limit(self, c):
        terms = {}
        if self.multi:
            terms = dict(self.lp.costs.get("investment", {}))
        else:
            for (stage, p), d in getattr(self, "period_cost", {}).items():
                for k, v in d.items():
                    terms[k] = terms.get(k, 0.0) + v
        self.lp.con("investment_limit", "total", terms, hi=c["limit"])

    def _cons_investment_limit_period(self, c):
        for p in range(self.P):
            self.lp.con("investment_limit", p,
                        self.period_cost.get(("investment", p), {}),
                        hi=at(c["limit"], p))

    def _cons_additional_limit(self, c):
        key, terms = c["keyword"], {}
        for (i, o), f in self.flows.items():
            nom = f.get("nominal_capacity")
            if isinstance(nom, dict):
                w = (nom["invest"].get("custom_properties") or {}).get(key)
                if w is not None:
                    for p in range(self.P):
                        terms[("invest", i, o, p)] = w
        self.lp.con("additional_limit", key, terms, hi=c["limit"])

    def _cons_equate_flows(self, c):
        fac = c.get("factor1", 1)
        for t in range(self.T):
            terms = {}
            for i, o in c["flows1"]:
                k = ("flow", i, o, t)
                terms[k] = terms.get(k, 0) + fac
            for i, o in c["flows2"]:
                k = ("flow", i, o, t)
                terms[k] = terms.get(k, 0) - 1
            self.lp.con("equate_flows", t, terms, 0, 0)

    def _cons_equate_variables(self, c):
        self.lp.con("equate_variables", str(c["var1"]), {
            tuple(c["var1"]): c.get("factor1", 1), tuple(c["var2"]): -1},
            0, 0)

    def _cons_shared_limit(self, c):
        for t in range(self.T):
            terms = {}
            for comp, w in zip(c["components"], c["weights"]):
                k = (c["quantity"],) + tuple(comp) + (t,)
                terms[k] = terms.get(k, 0) + w
            self.lp.con("shared_limit", t, terms,
                        -INF if c.get("lower") is None else c["lower"],
                        INF if c.get("upper") is None else c["upper"])

    def _cons_flow_count(self, c):
        for t in range(self.T):
            self.lp.con("flow_count", t, {
                ("status", i, o, t): 1 for i, o in c["flows"]},
                -INF if c.get("lower") is None else c["lower"],
                INF if c.get("upper") is None else c["upper"])

    def _cons_storage_level(self, c):
        """Outputs only run while the level after the step is at least their
        threshold, inputs only while the level before it is at most theirs.
        """
        lp, lab, mb = self.lp, c["storage"], c["bus"]
        (st,) = [n for n in self.spec["nodes"] if n["label"] == lab]
        cap = st["nominal_capacity"]
        for o, lev in c["output_levels"].items():
            nom = self.flows[(mb, o)]["nominal_capacity"]
            for t in range(self.T):
                a = lp.var(("lvl_out", lab, o, t), 0, 1, True)
                lp.con("storage_level_out", (o, t, "lvl"), {
                    ("storage_content", lab, t + 1): 1 / cap, a: -lev},
                    lo=0)
                lp.con("storage_level_out", (o, t, "flow"), {
                    ("flow", mb, o, t): 1 / nom, a: -1}, hi=0)
        for i, lev in c["input_levels"].items():
            nom = self.flows[(i, mb)]["nominal_capacity"]
            for t in range(self.T):
                a = lp.var(("lvl_in", lab, i, t), 0, 1, True)
                lp.con("storage_level_in", (i, t, "lvl"), {
                    ("storage_content", lab, t): 1 / cap, a: -1}, hi=lev)
                lp.con("storage_level_in", (i, t, "flow"), {
                    ("flow", i, mb, t): 1 / nom, a: 1}, hi=1)
