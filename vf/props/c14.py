"""Sizing and on/off decisions in one flow."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 4800, "thorough": 38400}
TAGS = {"status", "status_flow", "invest_bounds"}
NEED = {"status": 300, "status_flow": 300, "invest_bounds": 100}


def gen(rng, k):
    g = composed(rng, ["invest_nonconvex"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=5, long=.01, longest=12)
    b = g.bus()
    for _ in range(rng.choice([1, 1, 2])):
        inv = {"ep_costs": g.num(0, 15, .5), "maximum": g.num(4, 20, .5)}
        if g.chance(.4):
            inv["minimum"] = g.num(.5, inv["maximum"], .5)
        if g.chance(.4):
            inv["nonconvex"] = True
            inv["offset"] = g.num(1, 20, .5)
            g.feat.append("optional investment")
        elif g.chance(.35):
            inv["existing"] = g.num(1, 8, .5)
            g.feat.append("existing")
        f = g.nc_flow(g.nonconvex(gradients=rng.random() < .15), inv)
        if g.chance(.75):
            g.source(b, **f)
        else:
            b2 = g.bus()
            g.source(b2, variable_costs=g.num(0, 5))
            g.add("Converter", inputs={b2: {}}, outputs={b: f},
                  conversion_factors={b: g.seq(.25, 1)})
    g.demand(b, 0, 14)
    if g.chance(.4):
        g.market(b)
    if g.chance(.92):
        g.backstop(b, 5, 60)
        g.excess(b)
    return case(rng, g)
