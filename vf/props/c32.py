"""Multi-period models: annuities, discounting, fixed costs."""
from ..common import Outcome  # noqa: F401
from ..dress import dress
from ..multi import MG
from ..mixed import mixed
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"cost part"}
NEED = {"cost part": 900}


def gen(rng, k):
    g = MG(rng)
    if g.chance(.2):
        g.feat.append("composed")
        g = mixed(rng, g=g)
        dress(g, ["invest", "invest", "ageing", "ageing", "costs", "nonconvex"], .4)
        if g.chance(.25):
            g.spec["objw"] = [g.num(.5, 3) for _ in range(g.T)]
        return case(rng, g)
    b = g.bus()
    for _ in range(rng.randint(1, 3)):
        f = {"variable_costs": g.seq(0, 9, .5)}
        if g.chance(.65):
            inv = g.minvest(.5, 25, optional=.35)
            if g.chance(.5):
                inv["fixed_costs"] = g.yearly(.25, 4)
            f["nominal_capacity"] = {"invest": inv}
        else:
            f["nominal_capacity"] = g.num(3, 10, .5)
            if g.chance(.7):
                f["fixed_costs"] = g.num(.25, 4) if g.chance(.5) else [
                    g.num(.25, 4) for _ in range(g.horizon)]
            if g.chance(.5):
                f["lifetime"] = rng.choice([1, 2, 3, 5, 10, 20])
                if g.chance(.5):
                    f["age"] = rng.randint(0, f["lifetime"])
        g.source(b, **f)
    if g.chance(.4):
        p = {"nominal_capacity": {"invest": g.minvest(.5, 6)}}
        if g.chance(.3):
            p["storage_costs"] = g.seq(0, 1, .25)
        g.add("Storage", "sto", inputs={b: {}}, outputs={b: {}},
              loss_rate=g.num(0, .25, .0625), **p)
        g.feat.append("storage")
    elif g.chance(.2):
        g.add("Storage", "sto", inputs={b: {}}, outputs={b: {}},
              nominal_capacity=g.num(2, 9),
              fixed_costs=g.num(0, 3) if g.chance(.5) else [
                  g.num(.25, 4) for _ in range(g.horizon)])
    g.demand(b, 1, 12)
    g.backstop(b)
    g.excess(b)
    if g.chance(.25):
        g.spec["objw"] = [g.num(.5, 3) for _ in range(g.T)]
    return case(rng, g)


def parts(c, v, out):
    if v.run is None or not v.run.values:
        return
    p, missing = v.ref.lp.evaluate_cost(v.run.values)
    if missing:
        return
    for name, x in p.items():
        out.see("cost part", abs(x) > 1e-6 and name != "variable")
    out.info = {"parts": "+".join(sorted(
        k for k, x in p.items() if abs(x) > 1e-6))}


def run(c):
    return _run(c, after=parts)


def _mp(rate, years, fixed=None, storage=False):
    spec = {"inc": [1.0] * (2 * len(years)), "buses": [{"label": "b"}],
            "periods": {"years": years, "counts": [2] * len(years)},
            "discount_rate": rate, "cons": [],
            "nodes": [
                {"kind": "Sink", "label": "d", "inputs": {
                    "b": {"nominal_capacity": 1.0, "fix": 3.0}}},
                {"kind": "Source", "label": "u", "outputs": {
                    "b": {"variable_costs": 50.0}}}]}
    inv = {"ep_costs": 2.0, "maximum": 9.0, "lifetime": 10}
    if fixed is not None:
        inv["fixed_costs"] = fixed
    if storage:
        spec["nodes"].append({
            "kind": "Storage", "label": "s", "inputs": {"b": {}},
            "outputs": {"b": {}}, "nominal_capacity": {"invest": inv}})
    else:
        spec["nodes"].append({"kind": "Source", "label": "p", "outputs": {
            "b": {"nominal_capacity": {"invest": inv}}}})
    return spec


def _tried(spec):
    from .. import observe
    from ..build import build_model
    r = observe.solve(lambda: build_model(spec))
    return None if r.status == "optimal" else f"{r.status}: {r.error}"


PROBES = [
    ("zero-discount-rate",
     lambda: _tried(_mp(0.0, [2020, 2025], storage=True))),
    ("fixed-costs-per-period",
     lambda: _tried(_mp(.02, [2020, 2025], fixed=[1.0, 2.0]))),
    ("positive-discount-rate",
     lambda: _tried(_mp(.02, [2020, 2025], storage=True))),
    ("fixed-costs-scalar",
     lambda: _tried(_mp(.02, [2020, 2025], fixed=1.0))),
]
