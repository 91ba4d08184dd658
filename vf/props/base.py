"""Default monitored execution of a generated system."""
import copy

from .. import common, compare
from ..gen import extremes


def solver_for(rng, cbc=0.2):
    return "cbc" if rng.random() < cbc else "glpk"


def no_idle_flows(spec):
    """A flow that no constraint and no cost mentions has no value after
    solving (see DESIGN.md, known finding C17/idle-flow): keep every flow at
    an unbalanced bus priced."""
    loose = {b["label"] for b in spec["buses"] if not b.get("balanced", True)}
    if not loose:
        return
    for n in list(spec["nodes"]) + list(spec["buses"]):
        for d in (n.get("inputs") or {}), (n.get("outputs") or {}):
            for b, f in d.items():
                if b in loose or n["label"] in loose:
                    v = f.get("variable_costs")
                    if isinstance(v, list):
                        f["variable_costs"] = [x or 0.5 for x in v]
                    elif not v:
                        f["variable_costs"] = 0.5


def weighting(rng, spec, feat, p=.06):
    """Costs may be weighted otherwise than by elapsed time; nothing but
    costs may depend on it."""
    if "objw" not in spec and rng.random() < p:
        spec["objw"] = [rng.choice([.25, .5, 1, 2, 3, 8])
                        for _ in spec["inc"]]
        feat.append("weighting of the objective")


def told_otherwise(rng, spec, p=.3):
    """The order in which flows and factors are listed has no meaning."""
    if rng.random() > p:
        return
    for n in spec["nodes"]:
        if n["kind"] in ("Converter", "Offset", "Extraction", "Link"):
            for key in ("inputs", "outputs", "conversion_factors",
                        "normed_offsets"):
                x = n.get(key)
                if isinstance(x, dict) and len(x) > 1:
                    items = list(x.items())
                    rng.shuffle(items)
                    n[key] = dict(items)
                elif isinstance(x, list):
                    rng.shuffle(x)


def twin(rng, spec, feat, p=.1):
    """A second component of the same kind with the same data, which may be
    told with the very same objects (`build.Conv.shared`)"""
    if rng.random() > p or not spec["nodes"]:
        return
    n = copy.deepcopy(rng.choice(spec["nodes"]))
    if n["kind"] in ("CAES", "PWL") or (
            spec.get("cons") and "custom_properties" in repr(n)):
        return
    n["label"] = n["label"] + "twin"
    spec["nodes"].insert(rng.randint(0, len(spec["nodes"])), n)
    feat.append("twin " + n["kind"])


def case(rng, g, **kw):
    g.feat += extremes(rng, g.spec)
    twin(rng, g.spec, g.feat)
    told_otherwise(rng, g.spec)
    weighting(rng, g.spec, g.feat)
    no_idle_flows(g.spec)
    return dict({"spec": g.spec, "solver": solver_for(rng),
                 "style": rng.randrange(10 ** 6),
                 "order": rng.randrange(10 ** 6)
                 if rng.random() < 0.3 else None,
                 "features": g.feat}, **kw)


def run(c, after=None, **kw):
    out = common.Outcome()
    v = compare.check(c["spec"], solver=c["solver"],
                      second="cbc" if c["solver"] == "glpk" else "glpk",
                      style=c["style"], order=c.get("order"), **kw)
    common.from_verdict(v, out)
    if v.kind == "infeasible":
        out.see("expected rejection")
    flow_limit_counts(c, v, out)
    if after is not None:
        after(c, v, out)
    out.features = list(c.get("features") or [])
    return out


def flow_limit_counts(c, v, out):
    """Trajectory monitor: every flow value lies within its limits; counts
    how many limits actually were reached."""
    from ..ref import at, all_flows
    if v.run is None or not v.run.values:
        return
    for (i, o), f in all_flows(c["spec"]).items():
        nom = f.get("nominal_capacity")
        if nom is None or isinstance(nom, dict):
            continue
        for t in range(len(c["spec"]["inc"])):
            x = v.run.values.get(("flow", i, o, t))
            if x is None:
                continue
            hi = at(f.get("maximum", 1), t) * nom
            lo = at(f.get("minimum", 0) or 0, t) * nom
            if f.get("fix") is not None:
                lo = hi = at(f["fix"], t) * nom
            elif f.get("nonconvex") is not None:
                lo = min(0, lo)
            out.see("flow_bound", abs(x - hi) < 1e-6 or (
                lo != 0 and abs(x - lo) < 1e-6))
            tol = 1e-5 * (1 + abs(x))
            if x > hi + tol or x < lo - tol:
                out.bad("flow_bound", f"{i}->{o} t={t}: {x} not within "
                        f"[{lo}, {hi}]")
