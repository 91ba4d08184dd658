"""Composed systems: several component kinds sharing buses."""
from .gen import G
from .props import c10


def mixed(rng, tmin=1, tmax=5, n=None, integer=True, modes=True, inc=None,
          T=None, invests=True, storages=True, g=None, adders=None, wires=.05):
    """g: a generator to be used instead, e.g. one with several periods;
    adders: kinds of components to choose from"""
    g = g or G(rng, T=T, tmin=tmin, tmax=tmax, modes=modes, inc=inc,
               long=0.01)
    g.el, g.heat, g.fuel = g.bus(prefix="el"), g.bus(prefix="heat"), g.bus(
        prefix="fuel")
    if adders is None:
        adders = [converter, link, extraction, simple_unit]
        if storages:
            adders += [storage, storage]
        if invests:
            adders += [invest_unit]
            if storages:
                adders += [invest_storage]
        if integer:
            adders += [nonconvex_unit, offset_unit, chp]
            if invests:
                adders += [invest_nonconvex]
    for _ in range(n or rng.randint(2, 5)):
        f = rng.choice(adders)
        f(g)
        g.feat.append(f.__name__)
    g.source(g.fuel, nominal_capacity=g.num(30, 90, 1),
             variable_costs=g.seq(1, 9, .5))
    g.source(g.el, nominal_capacity=g.num(4, 14, .5),
             maximum=[g.num(0, 1) for _ in range(g.T)],
             variable_costs=g.seq(-2, 3, .5))
    g.demand(g.el, 0, 14)
    g.demand(g.heat, 0, 10)
    if g.chance(.4):
        g.market(g.el)
    if wires and g.chance(wires):
        wire(g)
    for b in (g.el, g.heat):
        if g.chance(.97):
            g.backstop(b)
            g.excess(b)
    if g.chance(.5):
        g.backstop(g.fuel, 20, 40)
    return g


def invest(g, lo_cost=0, hi_cost=25, optional=.3, existing=.4, most=20):
    if hasattr(g, "minvest"):
        return g.minvest(lo_cost, hi_cost, optional, most)
    return c10.invest(g, lo_cost, hi_cost, optional, existing, most)


def simple_unit(g):
    f = g.flow()
    if f.get("fix") is None:
        if g.chance(.25):
            f["full_load_time_max"] = round(
                g.num(.25, 1, .125) * sum(g.spec["inc"]), 4)
        if g.chance(.2):
            f["positive_gradient_limit"] = g.seq(.25, 1, .125)
    g.source(g.r.choice([g.el, g.heat]), **f)


def converter(g):
    a, b = g.r.choice([(g.fuel, g.el), (g.el, g.heat), (g.fuel, g.heat)])
    outs = {b: {"nominal_capacity": g.num(3, 14, .5)}}
    cf = {b: g.seq(.25, 1.5)}
    if a == g.fuel and g.chance(.4):
        o = g.heat if b == g.el else g.el
        outs[o] = {}
        cf[o] = g.seq(.25, .75)
    if g.chance(.4):
        outs[b]["variable_costs"] = g.seq(0, 4, .5)
    g.add("Converter", inputs={a: {}}, outputs=outs, conversion_factors=cf)


def wire(g):
    """a flow from bus to bus"""
    if g.chance(.5):
        a, b = g.r.sample([g.el, g.heat, g.fuel], 2)
    else:
        a, b = g.bus(prefix="el"), g.r.choice([g.el, g.heat])
        if g.chance(.3):
            a, b = b, a
        for n in (a, b):
            if n not in (g.el, g.heat):
                g.source(n, variable_costs=g.seq(2, 20, .5))
                g.demand(n, 0, 4)
                g.excess(n)
    where = {x["label"]: x for x in g.spec["buses"]}
    later = max(a, b, key=lambda n: list(where).index(n))
    other = a if later == b else b
    keys = ["inputs" if later == b else "outputs"]
    if g.chance(.25):
        keys = ["inputs", "outputs"]
    for key in keys:
        where[later].setdefault(key, {})[other] = {
            "nominal_capacity": g.num(2, 12, .5),
            "variable_costs": g.num(0, 3, .25)}
    g.feat.append("bus-to-bus")


def link(g):
    b2 = g.bus(prefix="el")
    g.add("Link", inputs={g.el: {"nominal_capacity": g.num(3, 10, .5)},
                          b2: {"nominal_capacity": g.num(3, 10, .5)}},
          outputs={g.el: {}, b2: {"variable_costs": .25}},
          conversion_factors=[[g.el, b2, g.seq(.5, 1)],
                              [b2, g.el, g.seq(.5, 1)]])
    g.demand(b2, 0, 6)
    g.source(b2, nominal_capacity=g.num(2, 12, .5),
             variable_costs=g.seq(0, 12, .5))
    g.backstop(b2)
    g.excess(b2)


def extraction(g):
    g.add("Extraction", inputs={g.fuel: {"nominal_capacity":
                                         g.num(10, 40, 1)}},
          outputs={b: {} for b in g.r.sample([g.el, g.heat], 2)},
          conversion_factors={g.el: g.num(.2, .4, .05),
                              g.heat: g.num(.25, .55, .05)},
          conversion_factor_full_condensation={g.el: g.num(.45, .65, .05)})


def storage(g):
    p = g.storage_params()
    p["nominal_capacity"] = g.num(4, 20, 1)
    b = g.r.choice([g.el, g.heat])
    g.add("Storage", "sto", inputs={b: {"nominal_capacity": g.num(1, 8, .5)}},
          outputs={b: {"nominal_capacity": g.num(1, 8, .5),
                       "variable_costs": g.seq(0, 2, .25)}}, **p)


def invest_unit(g):
    f = {"nominal_capacity": {"invest": invest(g)},
         "variable_costs": g.seq(0, 10, .5)}
    if g.chance(.4):
        f["fix" if g.chance(.5) else "maximum"] = g.seq(.25, 1, .125)
    g.source(g.r.choice([g.el, g.heat]), **f)


def invest_storage(g):
    inv = invest(g, 0, 6, optional=.25, most=25)
    multi = hasattr(g, "minvest")
    p = g.storage_params(absolute=not multi and bool(
        inv.get("existing") or inv.get("minimum")), multi=multi)
    if multi and isinstance(p.get("min_storage_level"), list):
        p["min_storage_level"][0] = 0  # these are empty at the beginning
    elif multi:
        p.pop("min_storage_level", None)
    p["nominal_capacity"] = {"invest": inv}
    fi = {}
    if g.chance(.4):
        fi = {"nominal_capacity": {"invest": invest(g, 0, 3, 0, .2, 12)}}
        if multi:
            fi["nominal_capacity"]["invest"]["lifetime"] = inv["lifetime"]
            fi["nominal_capacity"]["invest"].pop("age", None)
        if g.chance(.6):
            p["invest_relation_input_capacity"] = g.num(.25, 1, .25)
    b = g.r.choice([g.el, g.heat])
    g.add("Storage", "sto", inputs={b: fi},
          outputs={b: {"variable_costs": g.num(0, 2)}}, **p)


def nonconvex_unit(g):
    nc = g.nonconvex(runlength=False, gradients=g.chance(.2))
    f = g.nc_flow(nc)
    g.source(g.r.choice([g.el, g.heat]), **f)


def invest_nonconvex(g):
    if hasattr(g, "minvest"):
        inv = g.minvest(0, 6, 0, 20)
        inv.setdefault("maximum", g.pseq(5, 20, .5))
    else:
        inv = {"ep_costs": g.num(0, 6, .5), "maximum": g.num(5, 20, .5)}
        if g.chance(.3):
            inv["existing"] = g.num(1, 5, .5)
    f = g.nc_flow(g.nonconvex(), inv)
    g.source(g.r.choice([g.el, g.heat]), **f)


def offset_unit(g):
    f = {"nominal_capacity": g.num(4, 12, .5), "minimum": .25,
         "nonconvex": g.nonconvex(costs=g.chance(.5))}
    g.add("Offset", inputs={g.fuel: {}}, outputs={g.el: f},
          conversion_factors={g.fuel: g.num(1.25, 2.5)},
          normed_offsets={g.fuel: g.num(0, .5, .0625)})


def chp(g):
    pmax = g.num(8, 20, 1)
    pmin = pmax * .4
    g.add("GenericCHP",
          fuel_input={g.fuel: {"custom_properties": {
              "H_L_FG_share_max": [g.num(.1, .2, .02)] * g.T}}},
          electrical_output={g.el: {"custom_properties": {
              "P_max_woDH": [pmax] * g.T, "P_min_woDH": [pmin] * g.T,
              "Eta_el_max_woDH": [g.num(.45, .55, .01)] * g.T,
              "Eta_el_min_woDH": [g.num(.35, .44, .01)] * g.T}}},
          heat_output={g.heat: {"custom_properties": {
              "Q_CW_min": [g.num(0, 2, .5)] * g.T}}},
          beta=[g.num(.1, .2, .02)] * g.T, back_pressure=g.chance(.3))
