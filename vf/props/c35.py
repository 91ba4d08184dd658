"""Compressed air energy storages follow their equations."""
from ..dress import dress
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 2700, "thorough": 21600}
TAGS = {"caes_port", "caes_power", "caes_status", "caes_heat", "caes_share",
        "caes_cavern", "caes_level", "caes_size"}
NEED = {"caes_level": 500, "caes_power": 500, "caes_status": 300,
        "caes_heat": 300, "caes_cavern": 300, "caes_share": 50}
RULE = ("rows of the published equations, evaluated at the trajectories of "
        "real runs with compressed air storages")


def params(g):
    r = g.r
    q = {"cav_e_in_b": 0, "cav_e_out_b": 0,
         "cav_e_in_m": g.num(.5, 1, .125), "cav_e_out_m": g.num(.25, .75,
                                                                .125),
         "cav_eta_temp": g.num(1, 1.25, .0625) if g.chance(.5) else 1.0,
         "cav_level_max": g.num(10, 60, 1),
         "cmp_p_max_b": g.num(5, 20, .5), "cmp_p_max_m": g.num(-.125, .25,
                                                               .0625),
         "cmp_p_min": g.num(0, 4, .5), "cmp_q_out_b": 0,
         "cmp_q_out_m": g.num(.5, 1.25, .125), "cmp_q_tes_share": 0,
         "exp_p_max_b": g.num(5, 20, .5), "exp_p_max_m": g.num(0, .5, .0625),
         "exp_p_min": g.num(0, 4, .5), "exp_q_in_b": 0,
         "exp_q_in_m": g.num(.75, 1.5, .125), "exp_q_tes_share": 0,
         "tes_eta_temp": 1.0, "tes_level_max": 0.0}
    q["cmp_p_max_b"] += max(0, -q["cmp_p_max_m"] * q["cav_level_max"])
    if g.chance(.5):
        g.feat.append("offsets")
        q["cav_e_in_b"] = g.num(0, .5, .125)
        q["cav_e_out_b"] = g.num(0, .5, .125)
    if g.chance(.4):
        q["cmp_q_out_b"] = g.num(-.25, 2, .25) * min(1, q["cmp_p_min"])
        q["exp_q_in_b"] = g.num(-.25, 2, .25) * min(1, q["exp_p_min"])
    if g.chance(.5):
        g.feat.append("heat storage")
        q["tes_level_max"] = g.num(5, 50, 1)
        q["cmp_q_tes_share"] = r.choice([.25, .5, .75, 1])
        q["exp_q_tes_share"] = r.choice([0, .25, .5, .75, 1])
    return q


def gen(rng, k):
    g = G(rng, tmin=2, tmax=5, long=0)
    el, gas = g.bus(prefix="el"), g.bus(prefix="gas")
    for _ in range(rng.choice([1, 1, 1, 2])):
        fi, fo = {}, {}
        if g.chance(.4):
            fi = {"nominal_capacity": g.num(3, 15, .5)}
            if g.chance(.5):
                fi["maximum"] = g.seq(.25, 1, .125)
        if g.chance(.4):
            fo = {"nominal_capacity": g.num(3, 15, .5)}
        if g.chance(.5):
            fo["variable_costs"] = g.seq(0, 3, .25)
        g.add("CAES", "caes", electrical_input={el: fi}, fuel_input={gas: {}},
              electrical_output={el: fo}, params=params(g))
    g.source(gas, variable_costs=g.seq(.5, 6, .25))
    g.source(el, nominal_capacity=g.num(6, 25, .5),
             variable_costs=[g.num(-8, 10, .5) for _ in range(g.T)])
    g.demand(el, 0, 16)
    if g.chance(.6):
        g.market(el)
    if g.chance(.95):
        g.backstop(el)
        g.excess(el)
    dress(g, ["limits", "integer", "fullload", "gradient", "invest",
              "nonconvex"], .2, 2)
    return case(rng, g)
