"""Shadow prices: reported duals are marginal costs of demand."""
import random

import pandas as pd
from oemof.solph import processing, views

from .. import build, common, compare, observe
from ..mixed import mixed
from ..ref import Ref
from . import c31
from .base import no_idle_flows, solver_for, weighting

N = {"quick": 2700, "thorough": 21600}
TAGS = {"subgradient", "one step", "labels", "absent", "degenerate",
        "reduced costs"}
NEED = {"subgradient": 500, "one step": 1500, "labels": 500, "absent": 100,
        "reduced costs": 1500}
RULE = ("duals of bus balances and reduced costs of flows of a run, compared "
        "with optima of the reference after shifting balances and limits")


def gen(rng, k):
    while True:
        if rng.random() < .2:
            c = c31.gen(rng, k)
            c["features"].append("periods")
        else:
            g = mixed(rng, integer=False)
            if g.chance(.3):
                u = g.bus(balanced=False, prefix="grid")
                g.add("Converter", inputs={u: {"variable_costs": 4}},
                      outputs={g.el: {"nominal_capacity": 5}})
                g.feat.append("unbalanced")
            if g.chance(.15):
                g.bus(prefix="lonely")
                g.feat.append("bus without flows")
            if g.chance(.35):
                for n in g.spec["nodes"]:
                    for f in (n.get("outputs") or {}).values():
                        if n["kind"] == "Source" and g.chance(.6):
                            f["custom_properties"] = {
                                "emission_factor": g.num(.25, 2)}
                g.spec["cons"].append({
                    "type": "integral", "keyword": "emission_factor",
                    "upper": g.num(5, 60, 1)})
                g.feat.append("emission limit")
            weighting(rng, g.spec, g.feat)
            no_idle_flows(g.spec)
            c = {"spec": g.spec, "solver": solver_for(rng, .35),
                 "style": rng.randrange(10 ** 6), "order": None,
                 "features": g.feat}
        ref = Ref(c["spec"])
        if not any(ref.lp.integer):
            break
    per = c["spec"].get("periods")
    c["extra"] = bool(per) and not per.get("end") and rng.random() < .5
    c["seed"] = rng.randrange(10 ** 6)
    c["duals"] = rng.random() < .9
    c["trim"] = rng.random() < .3
    return c


def value_of(ref, shift, flows=()):
    """Optimum with the balances shifted by {(bus, t): extra demand} and the
    limits of flows shifted by {name: distance}."""
    rows, lb, ub = ref.lp.rows, list(ref.lp.lb), list(ref.lp.ub)
    for name, d in dict(flows).items():
        ref.lp.lb[ref.lp.index[name]] += d
        ref.lp.ub[ref.lp.index[name]] += d
    ref.lp.rows = [
        (tag, lab, terms, lo + shift.get(lab, 0), hi + shift.get(lab, 0))
        if tag == "balance" else (tag, lab, terms, lo, hi)
        for tag, lab, terms, lo, hi in rows]
    try:
        st, obj, _ = ref.lp.solve()
    finally:
        ref.lp.rows, ref.lp.lb, ref.lp.ub = rows, lb, ub
    return st, obj


def reduced_costs(m):
    """{name of the reference: reduced costs} of the flows, if any."""
    if not hasattr(getattr(m, "rc", None), "items"):
        return {}
    out = {}
    for (i, o, t), v in m.flow.items():
        if v in m.rc and not v.fixed:
            out["flow", str(i), str(o), t] = float(m.rc[v])
    return out


def run(c):
    out = common.Outcome()
    out.features = list(c["features"])
    spec, rng = c["spec"], random.Random(c["seed"])
    ref = Ref(spec)
    st, obj, _ = ref.lp.solve()

    def make():
        kw = None
        if c["extra"]:
            # the end of the last interval as an additional time point
            kw = build.make_periods(spec)
            i = kw["timeindex"]
            kw["timeindex"] = i.append(i[-1:] + pd.Timedelta("1h"))
        m, nodes = build.build_model(spec, c["style"], c["order"], kw)
        if c["duals"]:
            m.receive_duals()
        return m, nodes

    r = observe.solve(make, c["solver"])
    out.kind = r.status
    if st != "optimal" or r.status != "optimal":
        if r.status == "error":
            out.bad("exception", f"{r.error}")
        elif st == "optimal" and r.status == "failed":
            # the solver's message, unless the other one says the same
            q = observe.solve(make, "cbc" if r.solver == "glpk" else "glpk")
            if q.status == "failed" and compare._robustly_feasible(ref):
                out.bad("duals", f"an optimum exists, but: {r.error}")
            out.inconclusive = None if out.problems else "the run failed"
        out.see("expected rejection")
        return out
    with observe.quiet():
        res = processing.results(r.model, remove_last_time_point=c["trim"])
    T = len(spec["inc"])
    linked = {b["label"]: any(b["label"] in f for f in ref.flows)
              for b in spec["buses"]}
    duals = {}
    for b in spec["buses"]:
        key = (r.nodes[b["label"]], None)
        has = key in res and "duals" in res[key]["sequences"].columns
        want = c["duals"] and linked[b["label"]] and b.get("balanced", True)
        if not want:
            out.see("absent", nontrivial=True)
        if has != want:
            out.bad("absent", f"{b['label']}: duals "
                    f"{'reported' if has else 'missing'}")
            continue
        if not has:
            continue
        s = res[key]["sequences"]["duals"]
        labels = list(r.model.es.timeindex) if (
            r.model.es.timeindex is not None) else list(range(T + 1))
        out.see("labels", nontrivial=T > 1)
        if list(s.index)[:T] != labels[:T] or len(s.dropna()) != T:
            out.bad("labels", f"{b['label']}: {list(s.index)} for {T} steps")
            continue
        for t in range(T):
            duals[b["label"], t] = float(s.iloc[t])
        seq = views.node(res, r.nodes[b["label"]])["sequences"]
        col = [k for k in seq.columns if k[1] == "duals"]
        if len(col) != 1 or list(seq[col[0]].dropna()) != list(s.dropna()):
            out.bad("labels", f"{b['label']}: views.node shows {col}")
    rc = reduced_costs(r.model)
    free = any(not v.fixed and not v.stale for v in r.model.flow.values())
    if bool(rc) and not c["duals"] or c["duals"] and free and not rc:
        out.bad("reduced costs", f"{len(rc)} reduced costs, "
                f"receive_duals {'was' if c['duals'] else 'was not'} called")
        return out
    if not duals:
        return out
    big = max(1.0, abs(obj), *(abs(v) for v in duals.values()),
              *(abs(v) for v in rc.values()))
    tol = 2e-6 * big
    keys = sorted(duals)
    tests = []
    for key in rng.sample(keys, min(4, len(keys))):
        for d in rng.choice([(.125, -.125), (1, -.01), (.01, -1), (3, -3)]):
            tests.append(("one step", {key: d}))
    for size in (.01, .5, 3):
        tests.append(("subgradient", {
            key: rng.uniform(-size, size) for key in keys}))
    tests = [(tag, shift, {}) for tag, shift in tests]
    used = sorted(rc)
    for name in rng.sample(used, min(3, len(used))):
        tests.append(("reduced costs", {},
                      {name: rng.choice([.01, .25, 2]) * rng.choice([-1, 1])}))
    for size in (.02, 1):
        tests.append(("reduced costs", {
            key: rng.uniform(-size, size) for key in keys}, {
            name: rng.uniform(-size, size) for name in used}))
    for tag, shift, limits in tests:
        st, new = value_of(ref, shift, limits)
        if st == "unknown":
            continue
        move = sum(duals[k] * v for k, v in shift.items())
        move += sum(rc[k] * v for k, v in limits.items())
        out.see(tag, st == "optimal" and abs(new - obj) > 1e-6)
        if st == "optimal" and abs(new - obj - move) > 10 * tol:
            out.see("degenerate", True)
        if st == "optimal" and new < obj + move - tol:
            out.bad(tag, f"extra demand {shift}, limits of flows shifted by "
                    f"{limits}: optimum goes from {obj:.8g} "
                    f"to {new:.8g}, the duals promise at least "
                    f"{obj + move:.8g} ({duals}, reduced costs {rc})")
            break
    return out
