"""GenericCHP operating region."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 4800, "thorough": 38400}
TAGS = {"chp"}
NEED = {"chp": 800}


def gen(rng, k):
    g = composed(rng, ["limits", "integer", "fullload", "gradient", "invest", "nonconvex"], p=.1,
                 adders=["chp", "converter"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=5, long=.01, longest=12)
    T = g.T
    fuel, el, heat = g.bus(), g.bus(), g.bus()
    kind = rng.choice(["ccet", "bpt", "mchp", "any"])
    g.feat.append(kind)
    for _ in range(rng.choice([1, 1, 1, 2])):
        var = g.chance(.5)

        def s(lo, hi, step):
            if var:
                return [g.num(lo, hi, step) for _ in range(T)]
            return [g.num(lo, hi, step)] * T

        pmax = s(30, 60, 2)
        pmin = [x * .5 for x in pmax] if g.chance(.5) else s(10, 25, 1)
        emax = s(.45, .55, .01)
        emin = s(.35, .44, .01)
        share = s(.05, .2, .01)
        cw = s(0, 6, .5)
        beta = s(.1, .2, .01)
        ff = {"H_L_FG_share_max": share}
        if kind == "bpt":
            cw, beta = [0.0] * T, [0.0] * T if g.chance(.5) else beta
        if kind == "any":
            ff["H_L_FG_share_min"] = s(.35, .5, .01)
        if kind == "mchp":
            cw = [0.0] * T
            beta = [0.0] * T
            ff["H_L_FG_share_min"] = s(.35, .5, .01)
        flows = [{"custom_properties": ff},
                 {"custom_properties": {
                     "P_max_woDH": pmax, "P_min_woDH": pmin,
                     "Eta_el_max_woDH": emax, "Eta_el_min_woDH": emin}},
                 {"custom_properties": {"Q_CW_min": cw}}]
        for f in flows:
            if g.chance(.3):
                f["variable_costs"] = g.seq(-2, 4, .5)
        if g.chance(.3):
            flows[rng.randrange(3)]["nominal_capacity"] = g.num(30, 90, 5)
        g.add("GenericCHP", fuel_input={fuel: flows[0]},
              electrical_output={el: flows[1]},
              heat_output={heat: flows[2]}, beta=beta,
              back_pressure=kind == "bpt")
    g.source(fuel, nominal_capacity=g.num(60, 300, 10),
             variable_costs=g.seq(1, 10, .5))
    for b in (el, heat):
        g.demand(b, 0, 60) if g.chance(.5) else g.market(b, cap=60)
        if g.chance(.95):
            g.backstop(b)
            g.excess(b)
    return case(rng, g)
