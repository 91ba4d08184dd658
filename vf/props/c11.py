"""Sizing of storages and coupled flow capacities (single period)."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run
from .c10 import invest, sizing

N = {"quick": 6000, "thorough": 48000}
TAGS = {"storage_level", "storage_init", "invest_relation", "capacity",
        "storage_balance"}
NEED = {"storage_level": 300, "storage_init": 200, "invest_relation": 200,
        "capacity": 500, "storage_balance": 500}


def gen(rng, k):
    g = composed(rng, ["limits", "gradient", "invest", "nonconvex"],
                 adders=["invest_storage", "invest_storage", "converter"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=6)
    b = g.bus()
    for _ in range(rng.choice([1, 1, 2])):
        bo = b if g.chance(.75) else g.bus()
        coupled = False
        if g.chance(.85):
            inv = invest(g, 0, 6, optional=.25, most=30)
            p = g.storage_params(absolute=bool(
                inv.get("existing") or inv.get("minimum")))
            p["nominal_capacity"] = {"invest": inv}
            if g.chance(.3):
                inv.setdefault("existing", 0) if not inv.get(
                    "nonconvex") else None
        else:
            p = g.storage_params()
            p["nominal_capacity"] = g.num(4, 30, 1)
            coupled = True
        p.pop("storage_costs", None) if g.chance(.5) else None
        fi, fo = {}, {}
        isinv = isinstance(p["nominal_capacity"], dict)
        rel = {"i": False, "o": False, "io": False}
        if isinv:
            for key in rng.sample(list(rel), rng.randint(0, 2)):
                rel[key] = True
        elif coupled:
            rel["io"] = True
            g.feat.append("coupled flows, fixed capacity")
        if rel["i"]:
            p["invest_relation_input_capacity"] = g.num(.125, 1, .125)
        if rel["o"]:
            p["invest_relation_output_capacity"] = g.num(.125, 1, .125)
        if rel["io"]:
            p["invest_relation_input_output"] = g.num(.5, 2, .25)
        for f, need in ((fi, rel["i"] or rel["io"]),
                        (fo, rel["o"] or rel["io"])):
            if need or g.chance(.2):
                f["nominal_capacity"] = {"invest": invest(
                    g, 0, 4, optional=.15, existing=.15, most=15)
                    if g.chance(.5) else {"ep_costs": g.num(0, 4)}}
            elif g.chance(.7):
                f["nominal_capacity"] = g.num(1, 12, .5)
            if g.chance(.3):
                f["variable_costs"] = g.seq(0, 3, .25)
            if f.get("nominal_capacity") is not None and g.chance(.2):
                f["maximum"] = g.seq(.25, 1, .125)
        g.feat += [f"relation {k}" for k in rel if rel[k]]
        g.add("Storage", "sto", inputs={b: fi}, outputs={bo: fo}, **p)
        if bo != b:
            g.demand(bo, 0, 6) if g.chance(.6) else g.market(bo)
            g.backstop(bo)
            g.excess(bo)
    g.source(b, nominal_capacity=g.num(3, 16, .5),
             maximum=[g.num(0, 1) for _ in range(g.T)],
             variable_costs=[g.num(-2, 20, .5) for _ in range(g.T)])
    if g.chance(.8):
        g.demand(b, 0, 10)
    if g.chance(.3):
        g.market(b)
    if g.chance(.95):
        g.backstop(b)
        g.excess(b)
    return case(rng, g)


def run(c):
    return _run(c, after=sizing)
