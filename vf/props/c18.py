"""Integral limits: emissions and any weighted sum of flows."""
from ..gen import G
from ..impose import impose
from ..mixed import mixed
from ..multi import MG
from .base import case
from .base import run as _run

N = {"quick": 6000, "thorough": 48000}
TAGS = {"integral", "integral ledger"}
NEED = {"integral": 300, "integral ledger": 300}


def gen(rng, k):
    multi = rng.random() < .25
    g = MG(rng) if multi else G(rng, tmin=1, tmax=6)
    if g.chance(.25):
        impose(mixed(rng, g=g), ["integral"])
        return case(rng, g)
    b = g.bus()
    key = rng.choice(["emission_factor", "emission_factor", "space",
                      "my_keyword"])
    pairs, weights = [], []
    hours = sum(g.spec["inc"])
    for j in range(rng.randint(1, 4)):
        f = {"nominal_capacity": g.num(4, 15, .5),
             "variable_costs": g.price(-2, 12) or 1}
        if g.chance(.2):
            f["minimum"] = g.seq(0, .25, .125)
        if g.chance(.15) and not multi:
            f["nominal_capacity"] = {"invest": {"ep_costs": g.num(0, 8, .5),
                                                "maximum": 20}}
        if g.chance(.12) and "minimum" not in f:
            f["fix"] = g.seq(0, 1, .125)
        elif g.chance(.1) and not multi:
            f["nonconvex"] = {"initial_status": 0}
        if j == 0 or g.chance(.65):
            f["custom_properties"] = {key: g.seq(-.5, 3, .25)
                                      if g.chance(.2) else g.seq(0, 3, .25)}
            weights.append(f["custom_properties"][key])
            if g.chance(.2):
                f["custom_properties"]["other"] = 7.0
        if g.chance(.75):
            lab = g.source(b, **f)
            pair = (lab, b)
        else:
            f["variable_costs"] = [-abs(g.num(0, 9, .5))
                                   for _ in range(g.T)]
            lab = g.sink(b, **f)
            pair = (b, lab)
        if "custom_properties" in f:
            pairs.append(pair)
    g.demand(b, 0, 16)
    if g.chance(.93):
        g.backstop(b, 15, 50)
        g.excess(b)
    c = {"type": "integral", "keyword": key}
    if multi and g.chance(.7):
        c["type"] = "integral_period"
        c["limit"] = [g.num(0, 25, .5) for _ in range(g.P)] \
            if g.chance(.7) else g.num(0, 25, .5)
        g.feat.append("per period")
    else:
        if g.chance(.4) and len(pairs) > 1:
            c["flows"] = [list(p) for p in
                          rng.sample(pairs, rng.randint(1, len(pairs)))]
            g.feat.append("flows given")
        kind = rng.random()
        if kind < .75:
            c["upper"] = g.num(0, 12 * hours, .5)
        if kind > .6:
            c["lower"] = g.num(0, min(c.get("upper", 99), 4 * hours), .5)
        if key == "emission_factor" and "lower" not in c and g.chance(.7):
            c["api"] = "emission"
    g.spec["cons"].append(c)
    if c["type"] == "integral_period":
        if g.chance(.25) and len(pairs) > 1:
            c["flows"] = [list(p) for p in
                          rng.sample(pairs, rng.randint(1, len(pairs)))]
            g.feat.append("flows given")
        if g.chance(.3):
            # a second limit for another keyword, next to the first
            key2 = "emission_factor" if key == "space" else "space"
            have = False
            for n in g.spec["nodes"]:
                for d in n.get("outputs") or {}, n.get("inputs") or {}:
                    for f in d.values():
                        if "nominal_capacity" in f and g.chance(.6) and \
                                "fix" not in f:
                            f.setdefault("custom_properties", {})[key2] = \
                                g.seq(0, 3, .25)
                            have = True
            if have:
                g.spec["cons"].append({
                    "type": "integral_period", "keyword": key2,
                    "limit": [g.num(0, 25, .5) for _ in range(g.P)]})
                g.feat.append("two periodical limits")
    if c["type"] == "integral" and g.chance(.15):
        d = dict(c, name="second_limit")
        d.pop("api", None)
        if "upper" in d:
            d["upper"] = max(0, d["upper"] - g.num(0, 3, .5))
            g.feat.append("two limits")
            if "lower" not in d or d["lower"] <= d["upper"]:
                g.spec["cons"].append(d)
    return case(rng, g)


def ledger(c, v, out):
    from ..ref import all_flows, at
    val = v.run.values if v.run is not None else None
    if not val:
        return
    spec = c["spec"]
    inc, flows = spec["inc"], all_flows(spec)
    per = spec.get("periods")
    of = [p for p, n in enumerate(per["counts"]) for _ in range(n)] \
        if per else [0] * len(inc)
    for con in spec["cons"]:
        key = con["keyword"]
        sel = [tuple(x) for x in con["flows"]] if con.get("flows") else [
            x for x, f in flows.items()
            if key in (f.get("custom_properties") or {})]
        tot = [0.0] * (max(of) + 1)
        for i, o in sel:
            for t, h in enumerate(inc):
                tot[of[t]] += h * val[("flow", i, o, t)] * at(
                    flows[(i, o)]["custom_properties"][key], t)
        if con["type"] == "integral_period":
            caps = [(x, at(con["limit"], p), None)
                    for p, x in enumerate(tot)]
        else:
            caps = [(sum(tot), con.get("upper"), con.get("lower"))]
        for x, hi, lo in caps:
            tol = 1e-4 * (1 + abs(x))
            out.see("integral ledger", any(
                w is not None and abs(x - w) < tol for w in (hi, lo)))
            if hi is not None and x > hi + tol or \
                    lo is not None and x < lo - tol:
                out.bad("integral ledger", f"{key}: {x}, allowed [{lo}, {hi}]"
                        )


def run(c):
    return _run(c, after=ledger)
