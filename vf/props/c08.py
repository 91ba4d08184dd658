"""GenericStorage with a given capacity."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 6000, "thorough": 48000}
TAGS = {"storage_balance", "storage_init", "storage_balanced", "soc",
        "storage ledger"}
NEED = {"storage_balance": 800, "storage_init": 200, "storage_balanced": 200,
        "soc": 40, "storage ledger": 500, "content_bound": 200}


def gen(rng, k):
    g = composed(rng, ["limits", "integer", "fullload", "gradient", "invest", "nonconvex"],
                 adders=["storage", "storage", "link"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=7)
    b = g.bus()
    for _ in range(rng.choice([1, 1, 1, 2])):
        bo = b if g.chance(.7) else g.bus()
        p = g.storage_params()
        p["nominal_capacity"] = g.num(4, 30, 1)
        fi, fo = {}, {}
        for f in (fi, fo):
            if g.chance(.7):
                f["nominal_capacity"] = g.num(1, 12, .5)
                if g.chance(.25):
                    f["maximum"] = g.seq(.25, 1, .125)
            if g.chance(.4):
                f["variable_costs"] = g.seq(0, 3, .25)
        if g.chance(.2):
            fi["nominal_capacity"] = g.num(2, 10, .5)
            p["constant_soc_until"] = g.num(.25, .75, .125)
            p["fraction_saturation_charging"] = g.num(.125, 1, .125)
            g.feat.append("soc dependent charging")
        g.add("Storage", "sto", inputs={b: fi}, outputs={bo: fo}, **p)
        if bo != b:
            g.demand(bo, 0, 6) if g.chance(.6) else g.market(bo)
            if g.chance(.95):
                g.backstop(bo)
                g.excess(bo)
    g.source(b, nominal_capacity=g.num(3, 12, .5),
             maximum=[g.num(0, 1) for _ in range(g.T)],
             variable_costs=[g.num(-5, 20, .5) for _ in range(g.T)])
    if g.chance(.75):
        g.demand(b, 0, 8)
    if g.chance(.4):
        g.market(b)
    if g.chance(.95):
        g.backstop(b)
        g.excess(b)
    return case(rng, g)


def ledger(c, v, out):
    """Independent book-keeping of every storage along the trajectory."""
    from ..ref import at
    val = v.run.values if v.run is not None else None
    if not val:
        return
    inc = c["spec"]["inc"]
    for n in c["spec"]["nodes"]:
        if n["kind"] != "Storage" or isinstance(n["nominal_capacity"], dict):
            continue
        lab, cap = n["label"], n["nominal_capacity"]
        (bi,), (bo,) = n["inputs"], n["outputs"]
        e = [val.get(("storage_content", lab, t))
             for t in range(len(inc) + 1)]
        if None in e:
            continue
        tol = 1e-4 * (1 + cap)
        ini = n.get("initial_storage_level")
        if ini is not None and abs(e[0] - ini * cap) > tol:
            out.bad("ledger", f"{lab} starts at {e[0]}, not {ini * cap}")
        if n.get("balanced", True):
            out.see("storage ledger", abs(e[0]) > 1e-6)
            if abs(e[-1] - e[0]) > tol:
                out.bad("ledger", f"{lab} ends at {e[-1]}, started {e[0]}")
        for t, h in enumerate(inc):
            fin, fout = val[("flow", bi, lab, t)], val[("flow", lab, bo, t)]
            want = e[t] * (1 - at(n.get("loss_rate", 0), t)) ** h
            want -= h * cap * at(n.get("fixed_losses_relative", 0), t)
            want -= h * at(n.get("fixed_losses_absolute", 0), t)
            want += h * fin * at(n.get("inflow_conversion_factor", 1), t)
            want -= h * fout / at(n.get("outflow_conversion_factor", 1), t)
            out.see("storage ledger", fin > 1e-6 or fout > 1e-6)
            if abs(want - e[t + 1]) > tol:
                out.bad("ledger", f"{lab} t={t}: content {e[t + 1]}, expected "
                        f"{want}")
            lo = at(n.get("min_storage_level", 0), t + 1) * cap
            hi = at(n.get("max_storage_level", 1), t + 1) * cap
            x = e[t + 1]
            out.see("content_bound", abs(x - hi) < 1e-6 or (
                lo > 0 and abs(x - lo) < 1e-6))
            if x < lo - tol or x > hi + tol:
                out.bad("ledger", f"{lab} t={t + 1}: content {x} not in "
                        f"[{lo}, {hi}]")


def run(c):
    return _run(c, after=ledger)
