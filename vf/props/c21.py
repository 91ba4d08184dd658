"""Storage level constraint: ports gated by the storage level."""
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 3200, "thorough": 38400}
TAGS = {"storage_level_out", "storage_level_in", "gate"}
NEED = {"gate": 300}


def gen(rng, k):
    g = G(rng, tmin=1, tmax=6, long=.005)
    b, mb = g.bus(), g.bus(prefix="mux")
    p = g.storage_params(absolute=False)
    if g.chance(.6):
        p.pop("min_storage_level", None)
        p.pop("max_storage_level", None)
        if "initial_storage_level" not in p and g.chance(.5):
            p["initial_storage_level"] = g.num(0, 1, .125)
    p["nominal_capacity"] = g.num(4, 20, 1)
    sto = g.add("Storage", "sto", inputs={mb: {"variable_costs": .125}},
                outputs={mb: {}}, **p)
    ins, outs = {}, {}
    for _ in range(rng.randint(1, 2)):
        f = {"nominal_capacity": g.num(2, 8, .5),
             "variable_costs": g.price(0, 8) or 0}
        if g.chance(.2):
            f["maximum"] = g.seq(.5, 1, .125)
        lab = g.source(mb, **f)
        if g.chance(.85):
            ins[lab] = g.num(0, 1, .125)
    for _ in range(rng.randint(1, 2)):
        f = {"nominal_capacity": g.num(2, 8, .5)}
        if g.chance(.5):
            f["variable_costs"] = [-g.num(0, 15, .5) for _ in range(g.T)]
            lab = g.sink(mb, **f)
        else:
            lab = g.add("Converter", inputs={mb: f}, outputs={b: {}},
                        conversion_factors={b: g.num(.5, 1, .25)})
        if g.chance(.85):
            outs[lab] = g.num(0, 1, .125)
    g.demand(b, 0, 6)
    g.backstop(b, 10, 50)
    g.excess(b)
    if g.chance(.8):
        g.excess(mb, 3, 6)
    if g.chance(.8):
        g.backstop(mb, 40, 60)
    g.spec["cons"].append({
        "type": "storage_level", "storage": sto, "bus": mb,
        "input_levels": ins, "output_levels": outs})
    return case(rng, g)


def gates(c, val, out):
    if not val:
        return
    con = c["spec"]["cons"][0]
    (st,) = [n for n in c["spec"]["nodes"] if n["label"] == con["storage"]]
    cap = st["nominal_capacity"]
    for t in range(len(c["spec"]["inc"])):
        before = val[("storage_content", con["storage"], t)] / cap
        after = val[("storage_content", con["storage"], t + 1)] / cap
        for o, lev in con["output_levels"].items():
            x = val[("flow", con["bus"], o, t)]
            out.see("gate", after < lev - 1e-6 or x > 1e-6)
            if x > 1e-5 and after < lev - 1e-5:
                out.bad("gate", f"output {o} runs ({x}) at level {after} < "
                        f"{lev}, t={t}")
        for i, lev in con["input_levels"].items():
            x = val[("flow", i, con["bus"], t)]
            out.see("gate", before > lev + 1e-6 or x > 1e-6)
            if x > 1e-5 and before > lev + 1e-5:
                out.bad("gate", f"input {i} runs ({x}) at level {before} > "
                        f"{lev}, t={t}")


def run(c):
    return _run(c, after=lambda c, v, out: gates(
        c, v.run.values if v.run is not None else None, out))
