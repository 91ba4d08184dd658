"""Optimality and feasibility of composed systems."""
from ..dress import dress
from ..impose import impose
from ..mixed import mixed
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"balance", "converter", "storage_balance", "offset", "chp",
        "capacity", "status_flow", "extraction", "link", "flow_bound"}
NEED = {"balance": 800, "storage_balance": 300, "chp": 100,
        "extraction": 100, "offset": 100, "status_flow": 200,
        "capacity": 200, "integral": 10, "flow_bound": 500}


def gen(rng, k):
    g = mixed(rng)
    if g.chance(.2):
        from ..ref import all_flows
        for (i, o), f in all_flows(g.spec).items():
            if o == g.el and g.chance(.7):
                f.setdefault("custom_properties", {})["emission_factor"] = \
                    g.seq(0, 2)
        g.spec["cons"].append({
            "type": "integral", "keyword": "emission_factor",
            "upper": g.num(2, 30) * sum(g.spec["inc"])})
        if not any("emission_factor" in (f.get("custom_properties") or {})
                   for f in all_flows(g.spec).values()):
            g.spec["cons"].pop()
    dress(g, p=1, most=3)
    if g.chance(.3):
        impose(g, ["integral", "investment", "coupling"])
    return case(rng, g)


def run(c):
    # see C14 about runs that the end of the horizon cuts off
    return _run(c, refkw={"runlength": "loose"},
                strict={"runlength": "strict"})
