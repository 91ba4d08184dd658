"""Minimum up- and downtimes and the initial status."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"minimum_uptime", "minimum_downtime", "initial"}
NEED = {"minimum_uptime": 100, "minimum_downtime": 100, "initial": 100,
        "up run": 100, "down run": 100}
ASSUME = ["runs cut off by the end of the horizon: the documentation leaves "
          "open whether a switch that cannot complete its minimum time is "
          "allowed; both readings are accepted"]


def gen(rng, k):
    g = composed(rng, ["runs"], p=.1)
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=2, tmax=8, long=.015, longest=14)
    b = g.bus()
    for _ in range(rng.choice([1, 1, 1, 2])):
        nc = g.nonconvex(runlength=True, limits=g.chance(.15),
                         costs=g.chance(.4))
        if g.chance(.25):
            f = g.nc_flow(nc, {"ep_costs": g.num(0, 6, .5),
                               "maximum": g.num(5, 20, .5)})
            g.feat.append("invest")
        else:
            f = g.nc_flow(nc)
        f["variable_costs"] = [g.num(-15, 25, .5) for _ in range(g.T)]
        (g.source if g.chance(.7) else g.sink)(b, **f)
    g.demand(b, 0, 14)
    if g.chance(.92):
        g.backstop(b, 5, 40)
        g.excess(b)
    else:
        g.backstop(b, 5, 40)
    return case(rng, g)


def runs(c, v, out):
    """Trace monitor: lengths of the on/off runs in the status sequence."""
    from ..ref import all_flows, at
    if v.run is None or not v.run.values:
        return
    T = len(c["spec"]["inc"])
    for (i, o), f in all_flows(c["spec"]).items():
        nc = f.get("nonconvex")
        if nc is None:
            continue
        s = [v.run.values.get(("status", i, o, t)) for t in range(T)]
        if None in s:
            continue
        s = [round(x) for x in s]
        init = nc.get("initial_status", 0)
        up, dn = nc.get("minimum_uptime", 0), nc.get("minimum_downtime", 0)
        first = int(at(up if init else dn, 0))
        for t in range(min(first, T)):
            out.see("held initially")
            if s[t] != init:
                out.bad("initial", f"{i}->{o}: initial status {init} not "
                        f"held for {first} steps: {s}")
                break
        prev = [init] + s[:-1]
        for t in range(T):
            if s[t] == prev[t]:
                continue
            need = int(at(up if s[t] else dn, t))
            have = s[t:t + need]
            out.see("up run" if s[t] else "down run", need > 1)
            if any(x != s[t] for x in have):
                out.bad("run length", f"{i}->{o}: switch to {s[t]} at {t} "
                        f"not held for {need} steps: {s} (initial {init})")


def run(c):
    return _run(c, after=runs, refkw={"runlength": "loose"},
                strict={"runlength": "strict"})
