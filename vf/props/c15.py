"""Objective accounting: the reported total is the sum of its parts."""
import warnings

from ..dress import dress
from ..mixed import mixed
from ..multi import MG
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"accounting"}
NEED = {"accounting": 900, "reported": 900}


def gen(rng, k):
    if rng.random() < .3:
        g = multi(rng)
    else:
        g = mixed(rng, tmax=4)
        dress(g, ["invest", "costs", "nonconvex", "invest_nonconvex"], .25)
        if g.chance(.35):
            g.spec["objw"] = [g.num(.25, 4) for _ in range(g.T)]
            g.feat.append("objective weighting")
    return case(rng, g)


def multi(rng):
    g = MG(rng)
    b = g.bus()
    for _ in range(rng.randint(1, 3)):
        f = {"variable_costs": g.seq(-1, 8, .5)}
        if g.chance(.5):
            f["nominal_capacity"] = {"invest": g.minvest()}
        else:
            f["nominal_capacity"] = g.num(3, 10, .5)
            if g.chance(.4):
                f["fixed_costs"] = g.yearly(0, 3)
            if g.chance(.4):
                f["lifetime"] = rng.choice([1, 3, 6, 20])
                if g.chance(.5):
                    f["age"] = rng.randint(0, f["lifetime"])
        g.source(b, **f)
    if g.chance(.3):
        g.add("Storage", "sto", inputs={b: {}}, outputs={b: {}},
              nominal_capacity={"invest": g.minvest(0, 6)},
              loss_rate=g.num(0, .25, .0625))
    g.demand(b, 0, 12)
    g.backstop(b)
    g.excess(b)
    g.feat.append("multi-period")
    return g


def accounting(c, v, out):
    """Costs recomputed part by part from the observed trajectory (no
    optimum involved) and every place the total is reported at."""
    r = v.run
    if r is None or not r.values or v.ref is None:
        return
    from oemof import solph
    parts, missing = v.ref.lp.evaluate_cost(r.values)
    if not missing:
        tot, sc = sum(parts.values()), sum(map(abs, parts.values()))
        out.see("accounting", sc > 1e-6)
        out.info = {"cost parts": "+".join(sorted(
            k for k, x in parts.items() if abs(x) > 1e-6))}
        if abs(tot - r.objective) > 1e-4 + 1e-6 * sc:
            out.bad("accounting", f"recomputed {parts} = {tot}, reported "
                    f"{r.objective}")
    try:
        meta = solph.processing.meta_results(r.model)
    except Exception as e:  # noqa: BLE001
        out.bad("exception", f"meta_results: {type(e).__name__}: {e}")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        full = solph.processing.meta_results(r.model, undefined=True)
    for part in "problem", "solver":
        void = [k for k, x in meta[part].items() if str(x) == "<undefined>"]
        lost = [k for k, x in meta[part].items()
                if str(full[part].get(k)) != str(x)]
        if void or lost:
            out.bad("reported", f"meta results: {void} are not defined, "
                    f"{lost} are missing with undefined=True")
    breakdown(c, r.model, r.objective, out)
    out.see("reported", abs(r.objective) > 1e-6)
    tol = 1e-4 + 1e-6 * abs(r.objective)
    if abs(meta["objective"] - r.objective) > tol:
        out.bad("reported", f"meta results say {meta['objective']}, the "
                f"model {r.objective}")


LEAVES = ("variable_costs", "fixed_costs", "storage_costs",
          "investment_costs", "startup_costs", "shutdown_costs",
          "activity_costs", "inactivity_costs")
OPAQUE = {"SinkDSM"}  # costs are not kept as expressions


def breakdown(c, m, objective, out):
    """the cost expressions kept by the blocks add up to the total"""
    from pyomo.environ import Block, value
    if {n["kind"] for n in c["spec"]["nodes"]} & OPAQUE:
        return
    tot, scale, found = 0, 0, []
    for b in m.component_objects(Block):
        for name in LEAVES:
            x = getattr(b, name, None)
            if x is not None:
                x = value(x)
                tot, scale = tot + x, scale + abs(x)
                if x:
                    found.append(f"{b.name}.{name}={x}")
    out.see("breakdown", len(found) > 1)
    if abs(tot - objective) > 1e-4 + 1e-6 * scale:
        out.bad("breakdown", f"cost expressions {found} add up to {tot}, "
                f"the objective is {objective}")


def run(c):
    return _run(c, after=accounting)
