"""Aggregated models stand for their original time axis."""
from oemof.solph import processing

from .. import build, common, compare, observe, tsa
from ..gen import G
from ..lp import INF
from ..multi import MG
from ..ref import Ref
from .. import mixed as M
from . import c21
from .base import no_idle_flows, solver_for

N = {"quick": 2700, "thorough": 21600}
TAGS = {"storage_balance", "balance", "full_load", "labels", "flow result",
        "content result", "storage_level", "integral", "gate", "gate result", "startup",
        "max_startup", "shutdown", "max_shutdown"}
NEED = {"storage_balance": 500, "integral": 50, "labels": 300, "flow result": 300,
        "content result": 150, "full_load": 30,
        "gate": 50, "gate result": 50, "startup": 20}
RULE = ("rows of the unfolded reference at the unfolded trajectory, and "
        "disaggregated results")


def aggregate(rng, steps=None):
    """One period: typical periods, their order and their steps."""
    K = rng.choice([1, 2, 2, 2, 3])
    order = list(range(K)) + [rng.randrange(K)
                              for _ in range(rng.randint(0, 3))]
    rng.shuffle(order)
    return {"order": order, "steps": steps or rng.choice([1, 2, 2, 3])}


def gen(rng, k):
    multi = rng.random() < .35
    P = rng.choice([1, 2, 2, 3]) if multi else 1
    steps = rng.choice([3, 4]) if rng.random() < .15 else None
    par = [aggregate(rng, steps) for _ in range(P)]
    step = 1
    if rng.random() < .4:
        for a in par:
            K = max(a["order"]) + 1
            a["segments"] = []
            total = a["steps"] + rng.randint(0, 3)
            for q in range(K):
                cut = sorted(rng.sample(range(1, total), a["steps"] - 1))
                cut = [0] + cut + [total]
                a["segments"] += [[q, s, cut[s + 1] - cut[s]]
                                  for s in range(a["steps"])]
        inc = [float(n) for a in par for _, _, n in a["segments"]]
    else:
        step = rng.choice([1, 1, .5, 2])
        inc = [float(step)] * sum(a["steps"] * (max(a["order"]) + 1)
                                  for a in par)
    if multi:
        g = MG(rng, pmax=1)
        g.T, g.P, g.horizon = len(inc), P, P
        years = [2020 + p for p in range(P)]
        g.years = years
        g.spec["periods"] = {"years": years, "last_span": 1, "counts": [
            a["steps"] * (max(a["order"]) + 1) for a in par]}
        g.feat.append("periods")
    else:
        g = G(rng, T=len(inc), inc=inc, modes=False)
    g.spec.update(inc=inc, tsa=par, step=step, infer=rng.random() < .5,
                  plain=rng.random() < .5)
    if len(inc) < 3 and g.spec["infer"]:
        g.spec["infer"] = False
    g.feat.append("segments" if par[0].get("segments") else
                  "steps of %s h" % step)
    system(g, multi)
    no_idle_flows(g.spec)
    return {"spec": g.spec, "solver": solver_for(rng), "features": g.feat,
            "style": rng.randrange(10 ** 6)}


def offset_unit(g):
    g.add("Offset", inputs={g.fuel: {}}, outputs={g.el: {
        "nominal_capacity": g.num(4, 12, .5), "minimum": .25,
        "nonconvex": {}}},
        conversion_factors={g.fuel: g.seq(1.25, 2.5)},
        normed_offsets={g.fuel: g.seq(0, .5, .0625)})


def composed(g, multi):
    M.mixed(g.r, g=g, adders=[M.converter, M.link, M.extraction, M.chp,
                              offset_unit, M.invest_unit])
    if g.chance(.5):
        storage(g, g.r.choice([g.el, g.heat]), multi)
    g.feat.append("composed")


def system(g, multi):
    rng = g.r
    if g.chance(.3):
        return composed(g, multi)
    b = g.bus()
    for _ in range(rng.randint(1, 2)):
        f = {"nominal_capacity": g.num(3, 15, .5),
             "variable_costs": g.seq(-4, 10, .5)}
        if g.chance(.5):
            f["maximum"] = g.seq(.25, 1, .125)
        if g.chance(.25):
            f["minimum"] = g.seq(.125, .5, .125)
            f["nonconvex"] = {key: g.seq(0, 8, .5) for key in (
                "activity_costs", "inactivity_costs") if g.chance(.5)}
            f.pop("maximum", None)
            g.feat.append("on/off")
            if all(a["steps"] > 2 for a in g.spec["tsa"]):
                starts(g, f)
        elif g.chance(.4):
            h = sum(g.spec["inc"][x[4]] for x in tsa.layout(g.spec))
            if g.chance(.5):
                f["full_load_time_max"] = round(g.num(.125, 1, .125) * h, 4)
            else:
                f["full_load_time_min"] = round(g.num(.0625, .25, .0625) * h,
                                                4)
                f.pop("maximum", None)
        g.source(b, **f)
    if g.chance(.5):
        inv = g.minvest(0, 15) if multi else {
            "ep_costs": g.num(0, 40, 1), "maximum": g.num(4, 15, 1)}
        if not multi and g.chance(.3):
            inv.update(nonconvex=True, offset=g.num(1, 60, 1))
        elif not multi and g.chance(.3):
            inv["existing"] = g.num(1, 6, .5)
        f = {"nominal_capacity": {"invest": inv},
             "variable_costs": g.seq(0, 3, .5)}
        if g.chance(.5):
            f["maximum"] = g.seq(.25, 1, .125)
        if g.chance(.2):
            f["full_load_time_max"] = g.num(1, 8, .5)
        g.source(b, **f)
        g.feat.append("sized source")
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        storage(g, b, multi)
    if g.chance(.3):
        heat = g.bus()
        g.add("Converter", inputs={b: {}}, outputs={
            heat: {"nominal_capacity": g.num(2, 9, .5)}},
            conversion_factors={heat: g.seq(.5, 3, .25)})
        g.demand(heat, 0, 6)
        g.backstop(heat)
        g.excess(heat)
    g.demand(b, 0, 12)
    if g.chance(.4):
        g.market(b)
    if g.chance(.96):
        g.backstop(b)
        g.excess(b)
    if g.chance(.4):
        limit(g, multi)
    if g.chance(.15):
        gated(g, b)


def starts(g, f):
    """Off at both ends of every typical period, so that all transitions lie
    inside of one and happen as often as it does"""
    n = g.spec["tsa"][0]["steps"]
    f["minimum"] = g.num(.125, .5, .125)
    f["maximum"] = [0 if t % n in (0, n - 1) else 1 for t in range(g.T)]
    nc = f["nonconvex"]
    nc["initial_status"] = 0
    for key in ("startup_costs", "shutdown_costs"):
        if g.chance(.6):
            nc[key] = g.seq(0, 12, .5)
    for key in ("maximum_startups", "maximum_shutdowns"):
        if g.chance(.3):
            nc[key] = g.r.randint(0, 6)
    g.feat.append("transitions")


def gated(g, b):
    """A storage whose ports work depending on its content"""
    mb = g.bus(prefix="mux")
    p = {"nominal_capacity": g.num(4, 20, 1), "balanced": g.chance(.3)}
    if g.chance(.7):
        p["loss_rate"] = g.seq(0, .25, .0625, .5)
    if g.chance(.6):
        p["initial_storage_level"] = g.num(0, 1, .125)
    sto = g.add("Storage", "sto", inputs={mb: {"variable_costs": .125}},
                outputs={mb: {}}, **p)
    ins, outs = {}, {}
    for _ in range(g.r.randint(1, 2)):
        lab = g.source(mb, nominal_capacity=g.num(2, 8, .5),
                       variable_costs=g.seq(0, 8, .5))
        if g.chance(.85):
            ins[lab] = g.num(0, 1, .125)
    for _ in range(g.r.randint(1, 2)):
        f = {"nominal_capacity": g.num(2, 8, .5)}
        if g.chance(.5):
            f["variable_costs"] = g.seq(-15, 0, .5)
            lab = g.sink(mb, **f)
        else:
            lab = g.add("Converter", inputs={mb: f}, outputs={b: {}},
                        conversion_factors={b: g.seq(.5, 1, .25)})
        if g.chance(.85):
            outs[lab] = g.num(0, 1, .125)
    g.excess(mb, 3, 6)
    g.backstop(mb, 40, 60)
    g.spec["cons"].append({
        "type": "storage_level", "storage": sto, "bus": mb,
        "input_levels": ins, "output_levels": outs})
    g.feat.append("gated storage")


def limit(g, multi):
    """Budget over the original time axis"""
    flows = [f for n in g.spec["nodes"] if n["kind"] == "Source"
             for f in n["outputs"].values()]
    flows = g.r.sample(flows, g.r.randint(1, len(flows)))
    for f in flows:
        f["custom_properties"] = {"emission_factor": g.seq(.25, 2, .25)}
    h = sum(g.spec["inc"][x[4]] for x in tsa.layout(g.spec))
    c = {"type": "integral", "keyword": "emission_factor",
         "upper": g.num(1, 8, .5) * h}
    if multi and g.chance(.6):
        c = {"type": "integral_period", "keyword": "emission_factor",
             "limit": [g.num(1, 8, .5) * h for _ in range(g.P)]}
    g.spec["cons"] = [c]
    g.feat.append("budget")


def storage(g, b, multi):
    p = {}
    if g.chance(.7):
        p["loss_rate"] = g.seq(0, .25, .0625, .5)
    if g.chance(.3):
        p["fixed_losses_relative"] = g.seq(0, .03125, .015625)
    for key in ("inflow_conversion_factor", "outflow_conversion_factor"):
        if g.chance(.5):
            p[key] = g.seq(.5, 1, .125)
    if g.chance(.3):
        p["min_storage_level"] = g.seq(0, .25, .125)
    if g.chance(.3):
        p["max_storage_level"] = g.seq(.5, 1, .125)
    if g.chance(.3):
        p["storage_costs"] = g.seq(0, 2, .25)
        g.feat.append("storage costs")
    p["balanced"] = g.chance(.5)
    fi = {"nominal_capacity": g.num(1, 8, .5)}
    fo = {"nominal_capacity": g.num(1, 8, .5), "variable_costs":
          g.seq(0, 1, .25)}
    if g.chance(.4):
        p["nominal_capacity"] = {"invest": g.minvest(0, 6) if multi else {
            "ep_costs": g.num(0, 8, .5), "maximum": g.num(5, 20, 1)}}
        g.feat.append("sized storage")
        inv = p["nominal_capacity"]["invest"]
        if multi:
            inv.pop("fixed_costs", None)
            # these storages are empty at the beginning
            if isinstance(p.get("min_storage_level"), list):
                first = g.spec["tsa"][0]
                p["min_storage_level"][0] = 0
                p["min_storage_level"][first["order"][0]
                                       * first["steps"]] = 0
            else:
                p.pop("min_storage_level", None)
        else:
            if g.chance(.3):
                inv.update(nonconvex=True, offset=g.num(1, 30, 1),
                           minimum=g.num(0, 3))
            elif g.chance(.4):
                inv["existing"] = g.num(1, 6, .5)
                if g.chance(.5):
                    p["fixed_losses_absolute"] = g.seq(0, .25, .0625)
    else:
        p["nominal_capacity"] = g.num(4, 20, 1)
        g.feat.append("storage")
        if g.chance(.2):
            p["fixed_losses_absolute"] = g.seq(0, .25, .0625)
    if not multi and g.chance(.5):
        first = g.spec["tsa"][0]["order"][0] * g.spec["tsa"][0]["steps"]
        lo, hi = p.get("min_storage_level", 0), p.get("max_storage_level", 1)
        lo = max(lo[0], lo[first]) if isinstance(lo, list) else lo
        hi = min(hi[0], hi[first]) if isinstance(hi, list) else hi
        p["initial_storage_level"] = g.num(lo, hi, .125)
    g.add("Storage", "sto", inputs={b: fi}, outputs={b: fo}, **p)


def run(c):
    spec, out = c["spec"], common.Outcome()
    out.features = list(c["features"])
    full = tsa.unfold(spec)
    ref = Ref(full)
    tsa.tie(ref, spec)
    second = "cbc" if c["solver"] == "glpk" else "glpk"
    first = None
    for solver in (c["solver"], second):
        o = common.Outcome()
        o.features = out.features
        judge(c, spec, full, ref, solver, o)
        if not o.problems or o.inconclusive:
            if first is not None:
                o.inconclusive = f"solvers disagree: {first.problems[0]}"
            return o
        first = first or o
    return first


def judge(c, spec, full, ref, solver, out):
    st, obj, x = ref.lp.solve()

    def make():
        kw = tsa.arguments(spec)
        return build.build_model(spec, c["style"], None, kw)

    r = observe.solve(make, solver)
    out.kind = st
    if st == "unknown" or r.status == "timeout":
        out.inconclusive = "no answer"
        return
    if r.status == "error":
        out.bad("exception", f"reference: {st}; {r.error}")
        return
    if r.status == "failed":
        out.see("expected rejection", st == "infeasible")
        if st == "optimal":
            if not compare._robustly_feasible(ref):
                out.inconclusive = "borderline feasibility"
                return
            out.bad("rejected", f"reference optimum {obj}, but the run "
                    f"failed: {r.error[2][-100:]}")
        return
    if st != "optimal":
        if ref.lp.solve(relax=1e-6)[0] == "optimal":
            out.inconclusive = "borderline feasibility"
            return
        out.bad("accepted", f"reference {st}, the run reports {r.objective}")
        return
    val = tsa.spread(spec, r.values)
    viol, counts = ref.lp.residuals(val)
    for q in viol[:4]:
        out.bad("row", "%s %s: value %.8g outside [%.8g, %.8g]" % q)
    for tag, (n, k) in counts.items():
        out.see(tag, False, n - k)
        out.see(tag, True, k)
    parts, missing = ref.lp.evaluate_cost(val)
    if not missing and not compare.close(sum(parts.values()), r.objective,
                                         sum(map(abs, parts.values()))):
        out.bad("accounting", f"costs over the original time axis "
                f"{sum(parts.values()):.8g} {parts}, reported "
                f"{r.objective:.8g}")
    if not compare.close(obj, r.objective, sum(map(abs, parts.values()))):
        out.bad("optimum", f"reported {r.objective:.8g}, the unfolded system "
                f"has {obj:.8g}")
    for con in spec["cons"]:
        if con["type"] == "storage_level":
            c21.gates({"spec": dict(full, cons=[con])}, val, out)
    if not viol:
        results(spec, r, val, out)


def results(spec, r, val, out):
    """Disaggregated results against the unfolded trajectory."""
    with observe.quiet():
        res = processing.results(r.model)
    want = tsa.labels(spec)
    pos = tsa.positions(spec)
    lay = tsa.layout(spec)
    for (i, o), d in res.items():
        seq = d["sequences"]
        o = None if o is None else str(o)
        i = str(i)
        if o is not None:
            out.see("labels", len(want) > 1)
            if list(seq.index) != want:
                out.bad("labels", f"{i}->{o}: {list(seq.index)[:40]} instead "
                        f"of {want[:40]}")
                return
            for t in range(len(lay)):
                for q in range(pos[t], pos[t + 1]):
                    out.see("flow result")
                    a, b = seq["flow"].iloc[q], val[("flow", i, o, t)]
                    if not abs(a - b) <= 1e-5 * (1 + abs(b)):
                        out.bad("flow result", f"{i}->{o} step {q}: {a} "
                                f"instead of {b}")
                        return
        elif ("storage_content", i, 0) in val:
            if list(seq.index) != want:
                out.bad("labels", f"{i}: {list(seq.index)[:40]} instead of "
                        f"{want[:40]}")
                return
            for t in range(len(lay)):
                a, b = seq["soc"].iloc[pos[t]], val[("storage_content", i, t)]
                out.see("content result", b > 1e-6)
                if not abs(a - b) <= 1e-5 * (1 + abs(b)):
                    out.bad("content result", f"{i} step {pos[t]}: {a} "
                            f"instead of {b}")
                    return
        for name in seq.columns:
            if not str(name).endswith(tsa.GATES):
                continue
            if list(seq.index) != want:
                out.bad("labels", f"{i} {name}: {list(seq.index)[:40]}")
                return
            for t in range(len(lay)):
                for q in range(pos[t], pos[t + 1]):
                    a, b = seq[name].iloc[q], val[(name, i, t)]
                    out.see("gate result", b > .5)
                    if not abs(a - b) <= 1e-6:
                        out.bad("gate result", f"{i} {name} step {q}: {a} "
                                f"instead of {b}")
                        return


def _sized(costs, price):
    """Two typical days of two hours, sized storage"""
    spec = {"inc": [1.0] * 4, "step": 1, "plain": True,
            "tsa": [{"order": [0, 1], "steps": 2}],
            "buses": [{"label": "b"}], "cons": [], "nodes": [
                {"kind": "Source", "label": "u", "outputs": {"b": {
                    "nominal_capacity": 10.0, "variable_costs": price}}},
                {"kind": "Sink", "label": "d", "inputs": {"b": {
                    "nominal_capacity": 1.0, "fix": [2.0, 1.0, 2.0, 1.0]}}},
                {"kind": "Storage", "label": "s", "inputs": {"b": {}},
                 "outputs": {"b": {}}, "balanced": True,
                 "storage_costs": costs, "nominal_capacity": {
                     "invest": {"ep_costs": 1.0, "maximum": 5.0}}}]}
    r = observe.solve(lambda: build.build_model(
        spec, es_kwargs=tsa.arguments(spec)))
    if r.status != "optimal":
        raise RuntimeError(f"{r.status}: {r.error}")
    return r.values


def _final():
    v = _sized(-3.0, 0.0)
    end, cap = v[("inter_storage_content", "s", 2)], v[("total", "s", 0)]
    if end > cap + 1e-6:
        return f"content {end} at the end of the horizon, capacity {cap}"


def _balance():
    v = _sized(0.0, 50.0)
    a, b = (v[("inter_storage_content", "s", i)] for i in (0, 2))
    if abs(a - b) > 1e-6:
        return f"balanced storage starts with {a} and ends with {b}"


PROBES = [("final-content-of-sized-storage", _final),
          ("balance-of-sized-storage", _balance)]
