"""Full-load hours and ramping limits of flows."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 6000, "thorough": 48000}
TAGS = {"full_load", "gradient"}
NEED = {"full_load": 200, "gradient": 300}


def gen(rng, k):
    g = composed(rng, ["fullload", "gradient"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=2, tmax=6)
    b = g.bus()
    hours = sum(g.spec["inc"])
    for _ in range(rng.randint(1, 3)):
        f = {"nominal_capacity": g.num(2, 15, .5),
             "variable_costs": g.price(-15, 15) or -3}
        if g.chance(.3):
            f["maximum"] = g.seq(.5, 1.25)
        if g.chance(.15):
            f["minimum"] = g.seq(0, .25, .125)
        if g.chance(.08):
            f["minimum"] = g.seq(-1, -.25)
            g.feat.append("bidirectional")
        inv = g.chance(.2)
        if inv:
            f["nominal_capacity"] = {"invest": {
                "ep_costs": g.num(0, 10, .5), "maximum": g.num(5, 20, 1),
                "minimum": g.num(0, 4, 1)}}
            if g.chance(.4):
                f["nominal_capacity"]["invest"]["existing"] = g.num(1, 5)
            f.pop("minimum", None)
        if g.chance(.4) or inv:
            f["full_load_time_max"] = round(g.num(.125, 1, .125) * hours, 4)
        if g.chance(.3):
            f["full_load_time_min"] = round(g.num(.125, .75, .125) * hours, 4)
            if f.get("full_load_time_max") is not None:
                f["full_load_time_max"] = max(f["full_load_time_max"],
                                              f["full_load_time_min"])
        if not inv:
            if g.chance(.45):
                f["positive_gradient_limit"] = g.seq(0.125, .75, .125)
            if g.chance(.45):
                f["negative_gradient_limit"] = g.seq(0.125, .75, .125)
        (g.source if g.chance(.6) else g.sink)(b, **f)
    if g.chance(.6):
        g.demand(b, 0, 12)
    g.market(b) if g.chance(.5) else None
    if g.chance(.95):
        g.backstop(b)
        g.excess(b)
    return case(rng, g)
