"""On/off flows: status coupling, start/stop costs and counts, activity
costs, ramping of on/off flows."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"status", "status_flow", "startup", "shutdown", "max_startup",
        "max_shutdown", "nc_gradient"}
NEED = {"status_flow": 300, "startup": 100, "shutdown": 100,
        "max_startup": 60, "max_shutdown": 60, "nc_gradient": 60,
        "starts": 50, "stops": 50}


def gen(rng, k):
    g = composed(rng, ["nonconvex"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=6, long=.01, longest=14)
    b = g.bus()
    for _ in range(rng.choice([1, 1, 2])):
        f = g.nc_flow(g.nonconvex(gradients=rng.random() < .3))
        if g.chance(.1):
            h = sum(g.spec["inc"])
            f["full_load_time_max"] = round(g.num(.125, 1, .125) * h, 4)
        m = rng.random()
        if m < .65:
            g.source(b, **f)
        elif m < .8:
            g.sink(b, **f)
        else:
            b2 = g.bus()
            g.source(b2, variable_costs=g.num(0, 5))
            g.add("Converter", inputs={b2: {}}, outputs={b: f},
                  conversion_factors={b: g.seq(.25, 1)})
    g.demand(b, 0, 14)
    if g.chance(.4):
        g.market(b)
    if g.chance(.92):
        g.backstop(b, 10, 60)
        g.excess(b)
    return case(rng, g)


def starts_stops(c, v, out):
    """Independent of any switch variable: count the switches in the status
    sequence and price them."""
    from ..ref import all_flows
    if v.run is None or not v.run.values:
        return
    T = len(c["spec"]["inc"])
    for (i, o), f in all_flows(c["spec"]).items():
        nc = f.get("nonconvex")
        if nc is None:
            continue
        s = [v.run.values.get(("status", i, o, t)) for t in range(T)]
        if None in s:
            continue
        s = [round(x) for x in s]
        prev = [nc.get("initial_status", 0)] + s[:-1]
        ups = sum(b > a for a, b in zip(prev, s))
        dns = sum(b < a for a, b in zip(prev, s))
        out.see("starts", ups > 0)
        out.see("stops", dns > 0)
        for n, key in ((ups, "maximum_startups"), (dns, "maximum_shutdowns")):
            if nc.get(key) is not None and n > nc[key]:
                out.bad("switches", f"{i}->{o}: {n} switches, {key}="
                        f"{nc[key]}, status {s}")
        for t in range(T):
            x = v.run.values[("flow", i, o, t)]
            if not s[t] and abs(x) > 1e-5:
                out.bad("status_flow", f"{i}->{o} t={t}: off but flow {x}")


def run(c):
    return _run(c, after=starts_stops)
