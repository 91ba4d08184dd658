"""Coupling constraints: equal flows/variables, shared and count limits."""
from ..gen import G
from ..impose import impose
from ..mixed import mixed
from .base import case, run  # noqa: F401

N = {"quick": 6000, "thorough": 48000}
TAGS = {"equate_flows", "equate_variables", "shared_limit", "flow_count"}
NEED = {"equate_flows": 200, "equate_variables": 60, "shared_limit": 200,
        "flow_count": 150}


def gen(rng, k):
    g = G(rng, tmin=1, tmax=6)
    if g.chance(.25) and impose(mixed(rng, g=g), ["coupling"]):
        return case(rng, g)
    if g.spec["nodes"]:
        g = G(rng, tmin=1, tmax=6)
    b = g.bus()
    mode = rng.choice(["flows", "flows", "variables", "shared", "shared",
                       "count"])
    (gen_flows if mode == "flows" else gen_variables if mode == "variables"
     else gen_shared if mode == "shared" else gen_count)(g, b)
    g.demand(b, 0, 18)
    if g.chance(.3):
        g.market(b)
    if g.chance(.95):
        g.backstop(b, 15, 50)
        g.excess(b)
    return case(rng, g)


def units(g, b, n, extra=None, at_sink=.2):
    out = []
    for _ in range(n):
        f = {"nominal_capacity": g.num(3, 14, .5),
             "variable_costs": g.price(-2, 12) or 1}
        if g.chance(.3):
            f["maximum"] = g.seq(.5, 1, .125)
        f.update(extra() if extra else {})
        if g.chance(at_sink):
            f["variable_costs"] = [-abs(g.num(0, 9, .5))
                                   for _ in range(g.T)]
            out.append([b, g.sink(b, **f)])
        else:
            out.append([g.source(b, **f), b])
    return out


def gen_flows(g, b):
    r = g.r
    u = units(g, b, r.randint(2, 4))
    r.shuffle(u)
    cut = r.randint(1, len(u) - 1)
    c = {"type": "equate_flows", "flows1": u[:cut], "flows2": u[cut:],
         "factor1": g.num(.25, 2)}
    if g.chance(.3):
        c.pop("factor1")
    if g.chance(.4):
        from ..ref import all_flows
        fl = all_flows(g.spec)
        names = ["key_a", "key_b"]
        for pairs, key in ((c["flows1"], names[0]), (c["flows2"], names[1])):
            for x in pairs:
                # the mark counts, not its value
                fl[tuple(x)].setdefault("custom_properties", {})[key] = \
                    r.choice([True, 1, 3.5, 0, False])
        c["keywords"] = names
        g.feat.append("by keyword")
    g.spec["cons"].append(c)


def gen_variables(g, b):
    r = g.r

    def extra():
        return {"nominal_capacity": {"invest": {
            "ep_costs": g.num(0, 10, .5), "maximum": g.num(4, 20, .5)}}}
    u = units(g, b, 2, extra, 0)
    var = [["invest"] + x + [0] for x in u]
    if g.chance(.5):
        lab = g.add("Storage", "sto", inputs={b: {"variable_costs": .25}},
                    outputs={b: {}},
                    nominal_capacity={"invest": {"ep_costs": g.num(0, 3, .5),
                                                 "maximum": 30}})
        var.append([r.choice(["invest", "total"]), lab, 0])
        g.feat.append("storage size")
    r.shuffle(var)
    c = {"type": "equate_variables", "var1": var[0], "var2": var[1],
         "factor1": g.num(.25, 2)}
    if g.chance(.2):
        t = r.randrange(g.T)
        c["var1"] = ["flow"] + u[0] + [t]
        c["var2"] = ["flow"] + u[1] + [g.T - 1 - t]
        g.feat.append("flow variables")
    if g.chance(.2):
        c.pop("factor1")
    g.spec["cons"].append(c)


def gen_shared(g, b):
    r = g.r
    kind = r.choice(["storage_content", "storage_content", "flow", "status"])
    comps = []
    n = r.randint(1, 3)
    if kind == "storage_content":
        for _ in range(n):
            lab = g.add(
                "Storage", "sto",
                inputs={b: {"variable_costs": g.num(0, 1, .25)}},
                outputs={b: {}}, nominal_capacity=g.num(4, 20, .5),
                initial_storage_level=g.num(0, .5, .125)
                if g.chance(.4) else None, balanced=g.chance(.4),
                storage_costs=g.num(-1, 1, .25))
            comps.append([lab])
    elif kind == "flow":
        comps = units(g, b, n)
    else:
        comps = units(g, b, n, lambda: {"nonconvex": g.nonconvex(),
                                        "minimum": g.num(0, .5, .125)})
    c = {"type": "shared_limit", "quantity": kind, "components": comps,
         "weights": [g.num(.25, 2) for _ in comps]}
    k = r.random()
    if k < .8:
        c["upper"] = g.num(1, 20, .5) if kind != "status" else g.num(0, 4)
    # without an explicit lower limit zero applies
    c["lower"] = 0
    if k > .6:
        c["lower"] = g.num(.25, 1 if kind == "status" else 3, .25)
        if "upper" in c and c["lower"] > c["upper"]:
            c["lower"] = c["upper"]
    if r.random() < .2 and len(comps) > 1:
        # one may not exceed the others
        c["weights"][r.randrange(len(comps))] *= -1
        g.feat.append("negative weight")
    g.spec["cons"].append(c)


def gen_count(g, b):
    r = g.r
    key = "count_me"
    n = r.randint(1, 4)
    marked = []

    def extra():
        f = {"nonconvex": g.nonconvex(),
             "minimum": g.num(.125, .5, .125)}
        if g.chance(.2):
            f["nominal_capacity"] = {"invest": {
                "ep_costs": g.num(0, 5, .5), "maximum": g.num(5, 15, .5)}}
            g.feat.append("count invest")
        if g.chance(.75):
            f["custom_properties"] = {key: r.choice([1, True, 0])}
        return f
    u = units(g, b, n, extra)
    from ..ref import all_flows
    fl = all_flows(g.spec)
    marked = [x for x in u
              if key in (fl[tuple(x)].get("custom_properties") or {})]
    c = {"type": "flow_count", "flows": u}
    if g.chance(.5) and marked:
        c["flows"] = marked
        c["keyword"] = key
        g.feat.append("count by keyword")
    elif g.chance(.5):
        c["flows"] = r.sample(u, r.randint(1, len(u)))
    m = len(c["flows"])
    c["lower"] = r.choice([0, 0, 1, min(2, m)])
    c["upper"] = r.randint(c["lower"], m)
    if g.chance(.15):
        c["upper"] = None
    g.spec["cons"].append(c)
