"""Sizing of flow capacities (single period)."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 6000, "thorough": 48000}
TAGS = {"capacity", "invest_flow", "invest_bounds", "sizing", "full_load"}
NEED = {"capacity": 800, "invest_flow": 800, "invest_bounds": 100,
        "sizing": 400}


def invest(g, lo_cost=0, hi_cost=25, optional=.3, existing=.4, most=20):
    inv = {"ep_costs": g.num(lo_cost, hi_cost, .5)}
    if g.chance(.7):
        inv["maximum"] = g.num(2, most, .5)
    if g.chance(.35):
        inv["minimum"] = g.num(.5, min(6, inv.get("maximum", 6)), .5)
    if g.chance(optional):
        inv.setdefault("maximum", g.num(6, most, .5))
        inv["nonconvex"] = True
        inv["offset"] = g.num(0, 30, .5)
        g.feat.append("optional investment")
    elif g.chance(existing):
        inv["existing"] = g.num(.5, 8, .5)
        g.feat.append("existing")
    return inv


def gen(rng, k):
    g = composed(rng, ["invest"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=6)
    b = g.bus()
    hours = sum(g.spec["inc"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = {"nominal_capacity": {"invest": invest(g)},
             "variable_costs": g.price(-3, 12) or 0}
        m = rng.random()
        if m < .3:
            f["fix"] = g.seq(0, 1, .125)
            g.feat.append("fix")
        else:
            if m < .6:
                f["maximum"] = g.seq(.25, 1.25, .125)
            if g.chance(.3):
                f["minimum"] = g.seq(.0625, .25, .0625)
                if g.chance(.3):
                    f["minimum"] = [0.0] * (g.T - 1) + [.25]
        if g.chance(.15):
            f["full_load_time_max"] = round(g.num(.25, 1, .125) * hours, 4)
        if g.chance(.15):
            f["full_load_time_min"] = round(g.num(.125, .375, .125) * hours,
                                            4)
        where = rng.random()
        if where < .55:
            g.source(b, **f)
        elif where < .75:
            f["variable_costs"] = [-abs(g.num(0, 12, .5))
                                   for _ in range(g.T)]
            g.sink(b, **f)
        else:
            b2 = g.bus()
            g.source(b2, variable_costs=g.num(0, 5))
            at_in = g.chance(.4)
            g.add("Converter", inputs={b2: f if at_in else {}},
                  outputs={b: {} if at_in else f},
                  conversion_factors={b: g.seq(.25, 1)})
    g.demand(b, 0, 14)
    if g.chance(.3):
        g.market(b, lo=0)
    if g.chance(.93):
        g.backstop(b, 10, 60)
        g.excess(b)
    return case(rng, g)


def sizing(c, v, out):
    from ..ref import all_flows, at
    val = v.run.values if v.run is not None else None
    if not val or c["spec"].get("periods"):  # see C31
        return
    for (i, o), f in all_flows(c["spec"]).items():
        nom = f.get("nominal_capacity")
        if not isinstance(nom, dict) or f.get("nonconvex") is not None:
            continue
        inv = nom["invest"]
        x = val.get(("invest", i, o, 0))
        if x is None:
            continue
        cap = x + inv.get("existing", 0)
        tol = 1e-5 * (1 + cap)
        out.see("sizing", x > 1e-6)
        lo, hi = inv.get("minimum", 0), inv.get("maximum", float("inf"))
        if inv.get("nonconvex") and abs(x) < tol:
            lo = 0
        if x < lo - tol or x > hi + tol:
            out.bad("sizing", f"{i}->{o}: {x} invested, allowed [{lo}, {hi}]")
        for t in range(len(c["spec"]["inc"])):
            w = val[("flow", i, o, t)]
            if f.get("fix") is not None:
                if abs(w - at(f["fix"], t) * cap) > tol:
                    out.bad("sizing", f"{i}->{o} t={t}: {w}, capacity {cap}")
            elif w > at(f.get("maximum", 1), t) * cap + tol:
                out.bad("sizing", f"{i}->{o} t={t}: {w}, capacity {cap}")


def run(c):
    return _run(c, after=sizing)
