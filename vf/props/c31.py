"""Multi-period models: capacities over the periods."""
from ..dress import dress
from ..multi import MG
from ..mixed import mixed
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"capacity", "overall", "retired", "stock", "invest_flow",
        "storage_level", "storage_balance", "invest_relation"}
NEED = {"capacity": 800, "overall": 40, "retired": 40, "stock": 500,
        "storage_balance": 100, "invest_relation": 40}


def gen(rng, k):
    g = MG(rng)
    if g.chance(.25):
        g.feat.append("composed")
        mixed(rng, g=g)
        dress(g, ["invest", "invest", "ageing", "ageing", "limits", "fullload", "gradient"], .5)
        return case(rng, g)
    b = g.bus()
    for _ in range(rng.randint(1, 3)):
        m = rng.random()
        f = {"variable_costs": g.seq(0, 8, .5)}
        if m < .65:
            f["nominal_capacity"] = {"invest": g.minvest(0, 15)}
            if g.chance(.3):
                f["maximum"] = g.seq(.5, 1, .125)
            elif g.chance(.2):
                f["fix"] = g.seq(.25, 1, .125)
            elif g.chance(.2):
                f["minimum"] = g.seq(.0625, .25, .0625)
            if g.chance(.1):
                f["full_load_time_max"] = g.num(.5, 4, .25)
        else:
            f["nominal_capacity"] = g.num(3, 10, .5)
            if g.chance(.7):
                f["lifetime"] = rng.choice([1, 2, 3, 5, 6, 10, 20])
                if g.chance(.6):
                    f["age"] = rng.randint(0, f["lifetime"])
                g.feat.append("lifetime of a given capacity")
        g.source(b, **f)
    for _ in range(rng.choice([0, 0, 1, 1])):
        p = {"nominal_capacity": {"invest": g.minvest(0, 5)}}
        if g.chance(.5):
            p["loss_rate"] = g.seq(0, .25, .0625)
        if g.chance(.3):
            p["fixed_losses_relative"] = g.num(0, .03125, .015625)
        if g.chance(.5):
            p["inflow_conversion_factor"] = g.seq(.5, 1, .125)
        if g.chance(.3):
            p["max_storage_level"] = [g.num(.5, 1, .125)
                                      for _ in range(g.T + 1)]
        if g.chance(.3):
            # storages sized by the model start empty
            p["min_storage_level"] = [0] + [g.num(0, .25, .125)
                                            for _ in range(g.T)]
        fi, fo = {}, {}
        if g.chance(.4):
            p["invest_relation_input_capacity"] = g.pseq(.25, 1, .125)
            fi["nominal_capacity"] = {"invest": dict(
                g.minvest(0, 3, 0),
                lifetime=p["nominal_capacity"]["invest"]["lifetime"])}
            fi["nominal_capacity"]["invest"].pop("age", None)
        if g.chance(.4):
            p["invest_relation_output_capacity"] = g.pseq(.25, 1, .125)
            fo["nominal_capacity"] = {"invest": dict(
                g.minvest(0, 3, 0),
                lifetime=p["nominal_capacity"]["invest"]["lifetime"])}
            fo["nominal_capacity"]["invest"].pop("age", None)
        if not (fi and fo) and g.chance(.4):
            p["invest_relation_input_output"] = g.pseq(.5, 2, .25)
            for f in fi, fo:
                if not f:
                    f["nominal_capacity"] = {"invest": dict(
                        g.minvest(0, 3, 0), lifetime=p["nominal_capacity"]
                        ["invest"]["lifetime"])}
                    f["nominal_capacity"]["invest"].pop("age", None)
        g.add("Storage", "sto", inputs={b: fi}, outputs={b: fo}, **p)
        g.feat.append("storage")
    g.demand(b, 0, 12)
    g.source(b, nominal_capacity=g.num(2, 8, .5),
             maximum=[g.num(0, 1) for _ in range(g.T)],
             variable_costs=g.seq(0, 3, .5))
    if g.chance(.96):
        g.backstop(b)
        g.excess(b)
    return case(rng, g)


def stock(c, v, out):
    """Book-keeping of every capacity over the periods."""
    val = v.run.values if v.run is not None else None
    if not val:
        return
    spec = c["spec"]
    years = [y - spec["periods"]["years"][0] for y in
             spec["periods"]["years"]]
    from ..ref import all_flows
    of = [p for p, n in enumerate(spec["periods"]["counts"])
          for _ in range(n)]
    for (i, o), f in all_flows(spec).items():
        if f.get("lifetime") is None:
            continue
        left = f["lifetime"] - (f.get("age") or 0)
        for t, p in enumerate(of):
            if left <= years[p]:
                x = val[("flow", i, o, t)]
                out.see("retired")
                if abs(x) > 1e-6:
                    out.bad("retired", f"{i}->{o}: {x} at t={t}, {left} "
                            f"years left at the start, year {years[p]}")
    units = [((i, o), f["nominal_capacity"]["invest"])
             for (i, o), f in all_flows(spec).items()
             if isinstance(f.get("nominal_capacity"), dict)]
    units += [((n["label"],), n["nominal_capacity"]["invest"])
              for n in spec["nodes"] if n["kind"] == "Storage"
              and isinstance(n["nominal_capacity"], dict)]
    for key, inv in units:
        for p, now in enumerate(years):
            have = val.get(("total",) + key + (p,))
            new = [val.get(("invest",) + key + (q,)) for q in range(p + 1)]
            if have is None or None in new:
                continue
            want = sum(x for q, x in enumerate(new)
                       if q == p or now - years[q] < inv["lifetime"])
            left = inv["lifetime"] - inv.get("age", 0)
            if p == 0 or left > now:
                want += inv.get("existing", 0)
            out.see("stock", want > 1e-6 and p > 0)
            if abs(have - want) > 1e-5 * (1 + want):
                out.bad("stock", f"{key}: capacity {have} in period {p}, "
                        f"installed and alive {want}")
            top = inv.get("overall_maximum")
            if top is not None and have > top + 1e-5:
                out.bad("stock", f"{key}: {have} above {top}")
        low = inv.get("overall_minimum")
        if low is not None and have is not None and have < low - 1e-5:
            out.bad("stock", f"{key}: {have} below {low} at the end")


def run(c):
    return _run(c, after=stock)
