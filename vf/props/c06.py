"""ExtractionTurbineCHP."""
from ..dress import composed
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"extraction", "chp point"}
NEED = {"extraction": 800, "chp point": 300}


def gen(rng, k):
    g = composed(rng, ["limits", "integer", "fullload", "gradient", "invest", "nonconvex"],
                 adders=["extraction", "extraction", "storage"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmin=1, tmax=6)
    fuel, el, heat = g.bus(), g.bus(), g.bus()
    for _ in range(rng.choice([1, 1, 2])):
        seq = g.chance(.4)
        T = g.T

        def s(lo, hi):
            return [g.num(lo, hi, .05) for _ in range(T)] if seq and \
                g.chance(.7) else g.num(lo, hi, .05)

        m = s(.2, .4)
        fullv = s(.45, .65)
        main = el if g.chance(.8) else heat
        tap = heat if main == el else el
        fl = [{}, {}, {}]
        fl[rng.randrange(3)]["nominal_capacity"] = g.num(5, 40, 1)
        for f in fl:
            if g.chance(.3):
                f["variable_costs"] = g.seq(0, 4, .5)
            if "nominal_capacity" in f and g.chance(.15):
                f["minimum"] = g.seq(.125, .375, .125)
        outs = [(main, fl[1]), (tap, fl[2])]
        if g.chance(.4):
            outs.reverse()
            g.feat.append("main output last")
        g.add("Extraction", inputs={fuel: fl[0]}, outputs=dict(outs),
              conversion_factors={main: m, tap: s(.25, .55)},
              conversion_factor_full_condensation={main: fullv})
    g.source(fuel, nominal_capacity=g.num(20, 90, 1),
             variable_costs=g.seq(1, 12, .5))
    if g.chance(.5):
        g.backstop(fuel)
    for b in (el, heat):
        g.demand(b, 0, 14) if g.chance(.6) else g.market(b)
        if g.chance(.95):
            g.backstop(b)
            g.excess(b)
    return case(rng, g)


def points(c, v, out):
    """Operating points: never more electricity than the coupled ratio
    allows, fuel use follows the two characteristic efficiencies."""
    from ..ref import at
    val = v.run.values if v.run is not None else None
    if not val:
        return
    for n in c["spec"]["nodes"]:
        if n["kind"] != "Extraction":
            continue
        lab = n["label"]
        (fuel,) = n["inputs"]
        ((main, full),) = n["conversion_factor_full_condensation"].items()
        (tap,) = [b for b in n["outputs"] if b != main]
        for t in range(len(c["spec"]["inc"])):
            h, p, q = (val[("flow", fuel, lab, t)], val[("flow", lab, main, t)],
                       val[("flow", lab, tap, t)])
            out.see("chp point", h > 1e-6)
            em, et = (at(n["conversion_factors"][b], t) for b in (main, tap))
            ef = at(full, t)
            tol = 1e-5 * (1 + h)
            if q < 1e-7 and abs(p - ef * h) > tol:
                out.bad("condensing", f"{lab} t={t}: {p} != {ef}*{h}")
            if p > ef * h + tol or q > et * h + tol:
                out.bad("extraction", f"{lab} t={t}: outputs {p}, {q} from "
                        f"fuel {h}")
            if p < em / et * q - tol:
                out.bad("extraction", f"{lab} t={t}: below the backpressure "
                        f"line: {p}, {q}")


def run(c):
    return _run(c, after=points)
