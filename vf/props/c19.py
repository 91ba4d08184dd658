"""Limits on investment costs and on weighted invested capacity."""
from ..gen import G
from ..impose import impose
from ..mixed import (converter, invest_nonconvex, invest_storage, invest_unit,
                     mixed, simple_unit, storage)
from ..multi import MG
from .base import case, run  # noqa: F401
from .c10 import invest

N = {"quick": 6000, "thorough": 48000}
TAGS = {"investment_limit", "additional_limit"}
NEED = {"investment_limit": 200, "additional_limit": 150}


def gen(rng, k):
    multi = rng.random() < .4
    g = MG(rng) if multi else G(rng, tmin=1, tmax=5)
    if g.chance(.3):
        kinds = [invest_unit, invest_unit, invest_storage]
        if not multi:
            kinds.append(invest_nonconvex)
        mixed(rng, g=g, n=rng.randint(1, 3), adders=kinds + [
            converter, simple_unit, storage])
        if impose(g, ["investment"]):
            return case(rng, g)
        g = MG(rng) if multi else G(rng, tmin=1, tmax=5)
    b = g.bus()
    key = rng.choice(["space", "area"])
    mode = rng.choice(["cost", "cost", "space", "period"])
    if mode == "period" and not multi:
        mode = "cost"
    have_flow = False
    kinds = rng.choice([["flow"], ["flow", "flow"], ["flow", "storage"],
                        ["storage"], ["flow", "ncflow"], ["ncflow"],
                        ["flow", "storage", "flow"]])
    if multi:
        kinds = [x for x in kinds if x != "ncflow"] or ["flow"]
    if mode == "space" and "flow" not in kinds and "ncflow" not in kinds:
        kinds.append("flow")
    for what in kinds:
        if what == "storage":
            inv = g.minvest(0, 6) if multi else invest(g, 0, 6, .2, .3)
            p = {"nominal_capacity": {"invest": inv}}
            if g.chance(.3):
                p["loss_rate"] = g.num(0, .25, .0625)
            fi = {"variable_costs": .25}
            fo = {}
            if g.chance(.3):
                fi = {"nominal_capacity": {"invest": g.minvest(0, 4, 0)
                                           if multi else invest(g, 0, 4, 0)}}
            g.add("Storage", "sto", inputs={b: fi}, outputs={b: fo}, **p)
        else:
            inv = g.minvest(0, 15) if multi else invest(g, 0, 15)
            f = {"variable_costs": g.price(-2, 6) or 0}
            if what == "ncflow":
                inv.setdefault("maximum", 15.0)
                f["nonconvex"] = g.nonconvex()
                if g.chance(.5):
                    f["minimum"] = g.num(.125, .5, .125)
            f["nominal_capacity"] = {"invest": inv}
            if g.chance(.7) or not have_flow:
                inv["custom_properties"] = {key: g.num(.25, 3, .25)}
                have_flow = True
            g.source(b, **f)
    g.demand(b, 2, 16)
    g.source(b, nominal_capacity=g.num(3, 9, .5),
             maximum=[g.num(0, 1) for _ in range(g.T)],
             variable_costs=g.seq(0, 5, .5))
    if g.chance(.95):
        g.backstop(b, 25, 70)
        g.excess(b)
    if mode == "cost":
        c = {"type": "investment_limit", "limit": g.num(0, 60, 1)}
    elif mode == "space":
        c = {"type": "additional_limit", "keyword": key,
             "limit": g.num(0, 30, .5)}
    else:
        c = {"type": "investment_limit_period",
             "limit": [g.num(0, 40, 1) for _ in range(g.P)]
             if g.chance(.6) else g.num(0, 40, 1)}
        g.feat.append("per period")
    g.spec["cons"].append(c)
    return case(rng, g)
