"""Piecewise linear converters follow their conversion function."""
import bisect

from ..dress import dress
from ..gen import G
from .base import case
from .base import run as _run

N = {"quick": 2700, "thorough": 21600}
TAGS = {"curve", "domain", "flow_bound"}
NEED = {"curve": 400, "domain": 300}
RULE = ("time steps of runs with piecewise linear converters, compared with "
        "the conversion function at the breakpoints")


def gen(rng, k):
    g = G(rng, tmin=1, tmax=4, long=0)
    fuel, el = g.bus(prefix="fuel"), g.bus(prefix="el")
    repn = rng.choice(["CC", "CC", "DCC", "MC", "INC", "DLOG"])
    g.feat.append(repn)
    for _ in range(rng.choice([1, 1, 1, 2])):
        n = rng.choice([2, 4]) if repn == "DLOG" else rng.randint(1, 5)
        pts = [rng.choice([0, 0, 0, 1, 2])]
        for _ in range(n):
            pts.append(pts[-1] + rng.choice([1, 2, 3, 5, 8]))
        top = float(pts[-1])
        shape = rng.choice(["rising", "falling", "hump", "saving", "line",
                            "cubic", "shifted"])
        # values at the breakpoints stay between 0 and about 25
        fn = {"rising": [0, .25, .02], "falling": [18, -15 / top],
              "hump": [2, 40 / top, -40 / top ** 2], "saving":
              [12, -24 / top, 16 / top ** 2], "line": [0, .5],
              "cubic": [0, 30 / top, -60 / top ** 2, 40 / top ** 3],
              "shifted": [-3, 15 / top]}[shape]
        g.feat.append(shape)
        fi = {"nominal_capacity": top}
        q = rng.random()
        if q < .25:
            fi["nominal_capacity"] = g.num(max(1, pts[0]), top, .5)
            fi["maximum"] = g.seq(.5, 1, .125)
        elif q < .35:
            fi["fix"] = [g.num(pts[0] / top, 1, 1 / 16) if pts[0] == 0 else
                         1.0 for _ in range(g.T)]
        elif q < .55:
            fi["minimum"] = g.seq(0, .5, .125)
        elif q < .7:
            del fi["nominal_capacity"]
            g.feat.append("unlimited input")
            if g.chance(.4):
                fi["nominal_capacity"] = {"invest": {
                    "ep_costs": g.num(0, 3, .25), "maximum": top}}
                g.feat[-1] = "sized input"
        if g.chance(.5):
            fi["variable_costs"] = g.seq(0, 4, .5)
        fo = {}
        if g.chance(.3):
            fo["nominal_capacity"] = g.num(4, 20, .5)
        if g.chance(.4):
            fo["variable_costs"] = g.seq(-3, 4, .5)
        g.add("PWL", "pwl", inputs={fuel: fi}, outputs={el: fo},
              function=fn, in_breakpoints=pts, pw_repn=repn)
    g.source(fuel, variable_costs=g.seq(-1, 8, .5))
    if g.chance(.6):
        g.demand(el, 0, 20)
    g.market(el)
    if g.chance(.9):
        g.backstop(el, 10, 40)
        g.excess(el, 0, 4)
        g.excess(fuel, 2, 5)
    if g.chance(.3):
        p = g.storage_params()
        p["nominal_capacity"] = g.num(4, 12, 1)
        g.add("Storage", "sto", inputs={el: {"nominal_capacity": 4}},
              outputs={el: {"nominal_capacity": 5}}, **p)
    dress(g, ["limits", "integer", "fullload", "gradient", "invest",
              "nonconvex"], .2, 2)
    c = case(rng, g)
    c["order"] = None
    return c


def curve(c, v, out):
    val = v.run.values if v.run is not None else None
    if not val:
        return
    for n in c["spec"]["nodes"]:
        if n["kind"] != "PWL":
            continue
        (i,), (o,) = n["inputs"], n["outputs"]
        pts = n["in_breakpoints"]
        f = [sum(a * x ** k for k, a in enumerate(n["function"]))
             for x in pts]
        for t in range(len(c["spec"]["inc"])):
            x = val[("flow", i, n["label"], t)]
            y = val[("flow", n["label"], o, t)]
            out.see("domain", x < pts[0] + 1e-6 or x > pts[-1] - 1e-6)
            if x < pts[0] - 1e-5 or x > pts[-1] + 1e-5:
                out.bad("domain", f"{n['label']} t={t}: input {x} outside "
                        f"of {pts}")
                continue
            s = min(max(bisect.bisect_right(pts, x) - 1, 0), len(pts) - 2)
            want = f[s] + (f[s + 1] - f[s]) * (x - pts[s]) / (
                pts[s + 1] - pts[s])
            out.see("curve", min(abs(x - q) for q in pts) > 1e-6)
            if abs(want - y) > 1e-4 * (1 + max(map(abs, f))):
                out.bad("curve", f"{n['label']} t={t}: {x} -> {y}, the "
                        f"curve gives {want}")


def run(c):
    return _run(c, after=curve)


def _mixed_representations():
    """Refused or modelled correctly, but not something else."""
    from .. import observe
    from ..build import build_model
    from ..common import Outcome
    spec = {"inc": [1.0, 1.0], "buses": [{"label": "a"}, {"label": "b"}],
            "cons": [], "nodes": [
                {"kind": "Source", "label": "s", "outputs": {
                    "a": {"variable_costs": 1.0}}},
                {"kind": "Source", "label": "e", "outputs": {
                    "b": {"variable_costs": 50.0}}},
                {"kind": "Sink", "label": "d", "inputs": {"b": {
                    "nominal_capacity": 1.0, "fix": [7.0, 4.0]}}}]}
    for k, repn in enumerate(["CC", "MC"]):
        spec["nodes"].append({
            "kind": "PWL", "label": f"p{k}",
            "inputs": {"a": {"nominal_capacity": 6.0}},
            "outputs": {"b": {}}, "pw_repn": repn,
            "in_breakpoints": [0, 2, 6] if k else [0, 3, 6],
            "function": [0, .25, .02 * (k + 1)]})
    r = observe.solve(lambda: build_model(spec))
    if r.status == "error":
        return None
    if r.status != "optimal":
        return f"{r.status}: {r.error}"

    class V:
        run = r
    out = Outcome()
    curve({"spec": spec}, V, out)
    return "; ".join(p[1] for p in out.problems) or None


PROBES = [("mixed-representations", _mixed_representations)]
