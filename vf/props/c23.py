"""Resolution and units: metamorphic relations between two real runs."""
import copy

from .. import build, compare, observe
from ..common import Outcome
from ..mixed import mixed
from .base import no_idle_flows, solver_for

N = {"quick": 4800, "thorough": 38400}
TAGS = {"refine", "time unit", "power unit", "cost unit", "decouple"}
NEED = {"refine": 250, "time unit": 200, "power unit": 200, "cost unit": 150,
        "decouple": 100}
RULE = ("distinct systems solved twice by the real code, in two resolutions "
        "or units, with a non-zero objective compared between both runs")
ASSUME = ["an optimum of a convex dispatch problem does not depend on how "
          "finely intervals with constant parameters are cut"]
EVENT_COSTS = ("startup_costs", "shutdown_costs", "activity_costs",
               "inactivity_costs")


def gen(rng, k):
    rel = rng.choice(["refine", "refine", "time unit", "time unit",
                      "power unit", "cost unit", "decouple"])
    conv = rel in ("refine", "decouple")
    g = mixed(rng, integer=not conv or rel == "decouple",
              storages=rel != "decouple", invests=rel != "decouple",
              modes=True)
    s = g.spec
    c = {"rel": rel, "solver": solver_for(rng), "spec": s,
         "features": sorted(set(g.feat)), "style": rng.randrange(10 ** 6),
         "factor": rng.choice([2, 4, .5, 3, .25])}
    if rel == "refine":
        for (i, o), f in build_flows(s):
            for key in ("positive_gradient_limit",
                        "negative_gradient_limit"):
                f.pop(key, None)
        for n in s["nodes"]:
            if n["kind"] == "Storage":
                for key in ("loss_rate", "fixed_losses_relative",
                            "storage_costs"):
                    n.pop(key, None)
                for key, d in (("min_storage_level", 0),
                               ("max_storage_level", 1)):
                    v = n.get(key, d)
                    if isinstance(v, list):
                        n[key] = max(v) if d == 0 else min(v)
                ini = n.get("initial_storage_level")
                if ini is not None:
                    n["initial_storage_level"] = min(max(
                        ini, n.get("min_storage_level", 0)),
                        n.get("max_storage_level", 1))
        c["cuts"] = [rng.choice([1, 2, 3, 4]) for _ in s["inc"]]
        if rng.random() < .4:
            el = s["buses"][0]["label"]
            f = None
            for (i, o), f in build_flows(s):
                if i != el and o == el:
                    f.setdefault("custom_properties",
                                 {})["emission_factor"] = g.num(0, 2)
            s["cons"].append({
                "type": "integral", "keyword": "emission_factor",
                "api": "emission", "upper": round(
                    sum(s["inc"]) * g.num(8, 30, 1), 3)})
            c["features"].append("emission limit")
    elif rel == "decouple":
        for (i, o), f in build_flows(s):
            for key in ("positive_gradient_limit", "full_load_time_max"):
                f.pop(key, None)
            nc = f.get("nonconvex")
            if nc is not None:
                f["nonconvex"] = {k_: v for k_, v in nc.items() if k_ in (
                    "activity_costs", "inactivity_costs")}
    elif rel == "time unit":
        if s.get("index") == "infer":
            s["index"] = "datetime"
    no_idle_flows(s)
    return c


def build_flows(s):
    from ..ref import all_flows
    return list(all_flows(s).items())


def mul(v, k):
    return [x * k for x in v] if isinstance(v, list) else v * k


def every(d, keys, k):
    for key in keys:
        if d.get(key) is not None:
            d[key] = mul(d[key], k)


def scale_invest(inv, size, cost_per_size, cost):
    every(inv, ("minimum", "maximum", "existing"), size)
    every(inv, ("ep_costs",), cost_per_size)
    every(inv, ("offset",), cost)


def transform(spec, rel, k):
    s = copy.deepcopy(spec)
    power = k if rel == "power unit" else 1
    energy = 1 if rel == "cost unit" else k
    hours = k if rel == "time unit" else 1
    per_energy = k if rel == "cost unit" else 1
    per_power = k if rel != "power unit" else 1
    for (i, o), f in build_flows(s):
        nom = f.get("nominal_capacity")
        if isinstance(nom, dict):
            scale_invest(nom["invest"], power, per_power, k)
        else:
            every(f, ("nominal_capacity",), power)
        every(f, ("variable_costs",), per_energy)
        every(f, ("full_load_time_max", "full_load_time_min"), hours)
        every(f.get("nonconvex") or {}, EVENT_COSTS, k)
        every(f.get("custom_properties") or {},
              ("P_max_woDH", "P_min_woDH", "Q_CW_min"), power)
    for n in s["nodes"]:
        if n["kind"] != "Storage":
            continue
        nom = n["nominal_capacity"]
        if isinstance(nom, dict):
            scale_invest(nom["invest"], energy, per_energy, k)
        else:
            n["nominal_capacity"] = nom * energy
        every(n, ("fixed_losses_absolute",), power)
        every(n, ("fixed_losses_relative",), 1 / hours)
        every(n, ("storage_costs",), per_energy)
        every(n, ("invest_relation_input_capacity",
                  "invest_relation_output_capacity"), 1 / hours)
        if n.get("loss_rate") is not None and hours != 1:
            lr = n["loss_rate"]
            n["loss_rate"] = [1 - (1 - x) ** (1 / k) for x in lr] \
                if isinstance(lr, list) else 1 - (1 - lr) ** (1 / k)
    if rel == "time unit":
        s["inc"] = [x * k for x in s["inc"]]
    return s


def pick(spec, idx, inc):
    """The spec with the steps idx (one entry of idx per new step)."""
    T = len(spec["inc"])

    def walk(v, key=None):
        if isinstance(v, dict):
            return {a: walk(b, a) for a, b in v.items()}
        if isinstance(v, list):
            if v and len(v) == T and all(
                    isinstance(x, (int, float)) for x in v):
                return [v[j] for j in idx]
            return [walk(x) for x in v]
        return v

    s = {a: (walk(b) if a not in ("inc", "index") else b)
         for a, b in copy.deepcopy(spec).items()}
    s["inc"] = inc
    if s.get("index") == "infer":
        s["index"] = "datetime"
    return s


def refine(spec, cuts):
    idx = [t for t, n in enumerate(cuts) for _ in range(n)]
    inc = [spec["inc"][t] / n for t, n in enumerate(cuts) for _ in range(n)]
    return pick(spec, idx, inc)


def partners(c):
    s = c["spec"]
    if c["rel"] == "refine":
        return [refine(s, c["cuts"])], 1
    if c["rel"] == "decouple":
        return [pick(s, [t], [s["inc"][t]]) for t in range(len(s["inc"]))], 1
    return [transform(s, c["rel"], c["factor"])], c["factor"]


def total(specs, solver, style):
    """-> (status, sum of objectives, magnitude)"""
    obj, big = 0, 0
    for s in specs:
        r = observe.solve(lambda s=s: build.build_model(s, style), solver)
        if r.status != "optimal":
            return r.status, r.error, 0
        obj += r.objective
        big += abs(r.objective)
    return "optimal", obj, big


def run(c):
    out = Outcome()
    out.features = [c["rel"]] + c["features"]
    bad = attempt(c, c["solver"], out)
    if bad and attempt(c, "cbc" if c["solver"] == "glpk" else "glpk", out):
        out.bad(c["rel"], bad)
    elif bad:
        out.inconclusive = f"one solver only: {bad}"
    return out


def attempt(c, solver, out):
    st, obj, big = total([c["spec"]], solver, c["style"])
    others, k = partners(c)
    st2, obj2, big2 = total(others, solver, c["style"])
    if "timeout" in (st, st2):
        out.inconclusive = "solver"
        return None
    out.kind = st
    if "error" in (st, st2):
        return f"{st} {obj} / {st2} {obj2}"
    if st != st2:
        # only a clear difference counts
        return f"{st} ({obj}) became {st2} ({obj2})"
    if st != "optimal":
        return None
    out.see(c["rel"], big > 1e-6)
    if not compare.close(obj * k, obj2, max(big * k, big2), 1e-5):
        return f"objective {obj} (times {k}) became {obj2}"
    return None
