"""Flow limits: bounds, fixed profiles, integer, bidirectional flows."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 6000, "thorough": 48000}
TAGS = {"integer", "balance", "flow_bound"}
NEED = {"integer": 50, "flow_bound": 500}


def gen(rng, k):
    g = composed(rng, ["limits", "limits", "integer"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmax=6)
    b = g.bus()
    if g.chance(0.3):
        b2 = g.bus()
        g.add("Converter", inputs={b: {}}, outputs={b2: g.flow()},
              conversion_factors={b2: g.seq(0.5, 1.5)})
        g.excess(b2, -15, -5) if g.chance(.5) else g.demand(b2, 0, 4)
        if g.chance(.8):
            g.backstop(b2)
            g.excess(b2)
    for _ in range(rng.randint(1, 4)):
        f = g.flow(neg=0.3)
        m = rng.random()
        if m < 0.1:
            f = {"nominal_capacity": g.num(0.5, 6, .5),
                 "fix": [g.num(0, 1.5) for _ in range(g.T)]}
        elif m < 0.2:
            f = {"nominal_capacity": 0.0, "variable_costs": g.num(-5, 5)}
            g.feat.append("zero capacity")
        elif m < 0.3:
            f = {"nominal_capacity": g.num(2, 9, .5), "bidirectional": True,
                 "minimum": -1.0 * g.num(.25, 1),
                 "variable_costs": g.price()}
            f.pop("bidirectional")
            g.feat.append("bidirectional")
        elif m < 0.4:
            lo = [g.num(0, .5) for _ in range(g.T)]
            lo[rng.randrange(g.T)] = -0.5
            f = {"nominal_capacity": g.num(2, 9, .5), "minimum": lo,
                 "maximum": [g.num(.5, 1.25) for _ in range(g.T)],
                 "variable_costs": g.price() or 1}
            g.feat.append("partly negative minimum")
        elif m < 0.5:
            f = {"nominal_capacity": g.num(2, 9, .5),
                 "minimum": g.seq(.25, .75), "maximum": g.seq(.75, 1.5),
                 "variable_costs": g.price() or 1}
        if g.chance(0.15):
            f["integer"] = True
            g.feat.append("integer")
            if f.get("fix") is not None:
                f["fix"] = 1.0
                f["nominal_capacity"] = float(rng.randint(1, 5))
            else:
                whole_units(g, f)
        (g.source if g.chance(.5) else g.sink)(b, **f)
    if g.chance(0.85):
        g.backstop(b)
    if g.chance(0.85):
        g.excess(b)
    if g.chance(0.5):
        g.market(b)
    return case(rng, g)


def whole_units(g, f):
    """Integer flows of every kind of capacity."""
    k = g.r.random()
    if k < .3:
        for key in ("nominal_capacity", "minimum", "maximum"):
            f.pop(key, None)
        f["variable_costs"] = g.num(.5, 9, .5)
        g.feat.append("integer without capacity")
    elif k < .5 and not negative(f.get("minimum")):
        f["nominal_capacity"] = {"invest": {
            "ep_costs": g.num(.25, 5, .25), "maximum": g.num(3, 12, .5)}}
        g.feat.append("integer investment")
    elif k < .7 and not negative(f.get("minimum")):
        f["nonconvex"] = g.nonconvex()
        g.feat.append("integer nonconvex")


def negative(v):
    return v is not None and min(v if isinstance(v, list) else [v]) < 0
