"""OffsetConverter: affine part-load relation, and its helper functions."""
from ..gen import G
from ..common import Outcome
from ..ref import at
from .base import case
from .base import run as _run

N = {"quick": 4800, "thorough": 38400}
TAGS = {"offset", "status_flow", "part load", "helper", "plot"}
NEED = {"offset": 600, "part load": 150, "helper": 200, "plot": 20}


def gen(rng, k):
    if rng.random() < .2:
        return {"helper": [
            [rng.choice(["input", "output"]), hi, round(hi * fr, 4), e1, e2]
            for hi, fr, e1, e2 in [
                (rng.choice([1, 1.0, .9, .75, 1.25, .5, 2]),
                 rng.choice([.25, .5, .1, .8, 0.0]),
                 round(rng.uniform(.2, 1), 3), round(rng.uniform(.2, 1), 3))
                for _ in range(5)]], "style": rng.randrange(10 ** 6)}
    if rng.random() < .02:
        T = rng.randint(1, 3)

        def seq(lo, hi):
            x = [round(rng.uniform(lo, hi), 3) for _ in range(T)]
            return x if rng.random() < .6 else x[0]
        return {"plot": {"T": T, "min": seq(.1, .45), "max": seq(.5, 1.2),
                         "slope": seq(.3, 2), "offset": seq(-.2, .5),
                         "side": rng.choice(["input", "output"]),
                         "step": rng.randrange(T)}}
    g = G(rng, tmin=1, tmax=5, long=.01, longest=14)
    ni, no = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2)])
    ins = [g.bus() for _ in range(ni)]
    outs = [g.bus() for _ in range(no)]
    ref_in = g.chance(.5)
    refb = rng.choice(ins if ref_in else outs)
    cap = g.num(4, 15, .5)
    inv = None
    if g.chance(.2):
        inv = {"ep_costs": g.num(0, 8, .5), "maximum": g.num(5, 20, .5)}
        if g.chance(.4):
            inv.update(nonconvex=True, offset=g.num(1, 15), minimum=1.0)
        g.feat.append("invest")
    reff = g.nc_flow(g.nonconvex(costs=g.chance(.4), limits=False), inv)
    if inv is None:
        reff["nominal_capacity"] = cap
    reff["variable_costs"] = g.seq(-3, 6, .5)
    node = {"inputs": {}, "outputs": {}, "conversion_factors": {},
            "normed_offsets": {}}
    for b in ins + outs:
        d = node["inputs"] if b in ins else node["outputs"]
        if b == refb:
            d[b] = reff
            continue
        f = {}
        if g.chance(.3):
            f["variable_costs"] = g.seq(0, 4, .5)
        if g.chance(.25):
            f["nominal_capacity"] = g.num(10, 40, 1)
        d[b] = f
        m = rng.random()
        if m < .85:
            node["conversion_factors"][b] = g.seq(.25, 1.75)
        if m < .7 or m > .93:
            node["normed_offsets"][b] = g.seq(-.125, .5, .0625)
    for key in ("conversion_factors", "normed_offsets"):
        if not node[key]:
            del node[key]
    if (ni, no) == (1, 1) and not ref_in and inv is None and g.chance(.4):
        former(g, node, ins[0], reff)
    g.add("Offset", **node)
    for b in ins:
        g.source(b, nominal_capacity=g.num(10, 60, 1),
                 variable_costs=g.seq(0, 10, .5))
        if g.chance(.9):
            g.backstop(b)
            g.excess(b, 0, 2)
    for b in outs:
        g.demand(b, 0, 12) if g.chance(.6) else g.market(b)
        if g.chance(.9):
            g.backstop(b)
            g.excess(b, 0, 2)
    g.feat.append(f"{ni}x{no} ref {'in' if ref_in else 'out'}")
    return case(rng, g)


def former(g, node, b, f):
    """Tell the line by offset and slope of the output over the input."""
    s = (node.get("conversion_factors") or {}).get(b, 1)
    o = (node.get("normed_offsets") or {}).get(b, 0)
    if not f.get("minimum"):
        return
    n = max([1] + [len(x) for x in (s, o) if isinstance(x, list)])
    for t in range(g.T):
        lo, hi = at(f["minimum"], t), at(f.get("maximum", 1), t)
        if not 0 < lo < hi or at(s, t) <= 0 or \
                lo + at(o, t) / at(s, t) < .05:
            return
    c0 = [-at(o, t) / at(s, t) for t in range(n)]
    c1 = [1 / at(s, t) for t in range(n)]
    node["coefficients"] = [
        c0 if isinstance(s, list) or isinstance(o, list) else c0[0],
        c1 if isinstance(s, list) else c1[0]]
    g.feat.append("coefficients" + (" (series)" if n > 1 else ""))


def part_load(c, v, out):
    """Every non-reference flow is slope * reference + offset * nominal while
    running and zero otherwise, judged from the flows alone."""
    val = v.run.values if v.run is not None else None
    if not val:
        return
    for n in c["spec"]["nodes"]:
        if n["kind"] != "Offset":
            continue
        lab = n["label"]
        flows = {b: ((b, lab), f) for b, f in n["inputs"].items()}
        flows.update({b: ((lab, b), f) for b, f in n["outputs"].items()})
        (rb,) = [b for b, (_, f) in flows.items() if f.get("nonconvex")
                 is not None]
        rk, rf = flows[rb]
        nom = rf["nominal_capacity"]
        if isinstance(nom, dict):
            nom = val.get(("invest",) + rk + (0,))
        for t in range(len(c["spec"]["inc"])):
            x = val[("flow",) + rk + (t,)]
            s = val.get(("status",) + rk + (t,))
            if nom is None or s is None:
                continue
            for b, (key, f) in flows.items():
                if b == rb:
                    continue
                want = 0.0
                if round(s):
                    want = (at((n.get("conversion_factors") or {})
                               .get(b, 1), t) * x
                            + at((n.get("normed_offsets") or {})
                                 .get(b, 0), t) * nom)
                got = val[("flow",) + key + (t,)]
                out.see("part load", round(s) and abs(x) > 1e-6)
                if abs(got - want) > 1e-4 * (1 + abs(want)):
                    out.bad("part load", f"{key} t={t}: {got}, expected "
                            f"{want}")


def helper(c):
    from oemof import solph
    out = Outcome()
    for side, hi, lo, e_hi, e_lo in c["helper"]:
        fn = (solph.components.slope_offset_from_nonconvex_input
              if side == "input" else
              solph.components.slope_offset_from_nonconvex_output)
        slope, off = fn(hi, lo, e_hi, e_lo)
        for load, eta in ((hi, e_hi), (lo, e_lo)):
            other = slope * load + off  # per unit of nominal capacity
            want = load * eta if side == "input" else load / eta
            out.see("helper")
            if abs(other - want) > 1e-9 * (1 + abs(want)):
                out.bad("helper", f"{fn.__name__}({hi}, {lo}, {e_hi}, {e_lo})"
                        f": at load {load} the other flow is {other}, "
                        f"expected {want}")
    return out


def plot(c):
    """the figure of the part-load curve shows the curve"""
    from matplotlib import pyplot as plt
    from oemof import solph
    out = Outcome()
    p, k = c["plot"], c["plot"]["step"]
    a, b = solph.Bus(label="a"), solph.Bus(label="b")
    ref = solph.Flow(nominal_capacity=10, minimum=p["min"], maximum=p["max"],
                     nonconvex=solph.NonConvex())
    other = b if p["side"] == "input" else a
    n = solph.components.OffsetConverter(
        label="n", inputs={a: ref if p["side"] == "input" else solph.Flow()},
        outputs={b: ref if p["side"] == "output" else solph.Flow()},
        conversion_factors={other: p["slope"]},
        normed_offsets={other: p["offset"]})
    lo, hi, m, q = (at(p[x], k) for x in ("min", "max", "slope", "offset"))
    fig, axes = n.plot_partload(other, k)
    plt.close(fig)
    seen = []
    for line in axes[0].get_lines():
        for x, y in line.get_xydata():
            seen.append(x)
            if abs(y - (m * x + q)) > 1e-9 * (1 + abs(y)):
                out.bad("plot", f"{p}: the curve shows {y} at {x}")
                return out
    out.see("plot", bool(seen))
    if not seen or min(seen) > 1e-9 or abs(max(seen) - hi) > 1e-9:
        out.bad("plot", f"{p}: curve drawn for {min(seen)} ... {max(seen)}")
    xs = []
    for line in axes[1].get_lines():
        for x, y in line.get_xydata():
            xs.append(x)
            if abs(y - (m + q / x)) > 1e-9 * (1 + abs(y)):
                out.bad("plot", f"{p}: the efficiency is shown as {y} at {x}")
                return out
    if not xs or abs(min(xs) - lo) > 1e-9 or abs(max(xs) - hi) > 1e-9:
        out.bad("plot", f"{p}: efficiency drawn for {xs[:1]} ... {xs[-1:]}")
    return out


def run(c):
    if "plot" in c:
        return plot(c)
    if "helper" in c:
        return helper(c)
    return _run(c, after=part_load)
