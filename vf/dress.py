"""Give flows anywhere in a composed system - at either side of a converter,
a link, a power plant or a storage - the attributes a flow may have.  What a
flow's attributes mean does not depend on the component it belongs to.

Limits are set near the values of an optimum without them, so they bind."""
from .ref import Ref, all_flows, at

KINDS = ["limits", "integer", "fullload", "gradient", "invest", "nonconvex",
         "runs", "invest_nonconvex", "costs"]


def dress(g, kinds=KINDS, p=1.0, most=3):
    if not g.chance(p):
        return 0
    spec, r = g.spec, g.r
    places = list(spots(spec))
    if not places:
        return 0
    st, _, x = Ref(spec).lp.solve(time_limit=5)
    if st != "optimal":
        return 0
    done = 0
    r.shuffle(places)
    # mostly where other generators have nothing but a bare flow
    places.sort(key=lambda s: s[0]["kind"] in ("Source", "Sink"))
    if g.chance(.3):
        r.shuffle(places)
    for node, key, f in places[:r.randint(1, most)]:
        kind = r.choice(kinds)
        y = [x.get(("flow",) + key + (t,), 0)
             for t in range(len(spec["inc"]))]
        if globals()["_" + kind](g, node, key, f, y):
            g.feat.append(f"{kind} at {side(node, key)}")
            done += 1
    return done


def side(node, key):
    return f"{node['kind']} {'input' if key[1] == node['label'] else 'output'}"


def spots(spec):
    """(node, (i, o), flow) that may be dressed"""
    gated = set()
    for c in spec.get("cons", []):
        if c["type"] == "storage_level":
            gated |= set(c["input_levels"]) | set(c["output_levels"])
    fl = all_flows(spec)
    for n in list(spec["nodes"]) + list(spec["buses"]):
        if n["label"] in gated:
            continue
        n = dict(n, kind=n.get("kind", "Bus"))
        own = [k for k in fl if n["label"] in k]
        if n["kind"] == "Bus":
            ends = [(b, n["label"]) for b in n.get("inputs") or {}]
            ends += [(n["label"], b) for b in n.get("outputs") or {}]
            own = ends
        if n["kind"] == "PWL":
            # the input's capacity has to fit to the breakpoints
            own = [(n["label"], b) for b in n["outputs"]]
        for k in own:
            if fl[k].get("fix") is None:
                yield n, k, fl[k]


def plain(f):
    """a flow with limits, but neither sized nor switched"""
    return not isinstance(f.get("nominal_capacity"), dict) and \
        f.get("nonconvex") is None and not f.get("integer")


def least(f):
    m = f.get("minimum") or 0
    return min(m) if isinstance(m, list) else m


def capacity(g, f, y):
    """a capacity that leaves room for most of what the optimum uses"""
    if f.get("nominal_capacity") is None:
        top = max(y + [0])
        f["nominal_capacity"] = round(max(1, top * g.r.uniform(.8, 1.5)), 1)
    return f["nominal_capacity"]


def _limits(g, node, key, f, y):
    if not plain(f) or least(f) < 0:
        return False
    if g.chance(.12) and node["kind"] in ("Source", "Sink", "Link", "Bus"):
        cap = capacity(g, f, y)
        if not cap:
            return False
        for k in "minimum", "maximum":
            f.pop(k, None)
        f["fix"] = [round(v / cap * g.r.uniform(.8, 1), 3) for v in y]
        return True
    capacity(g, f, y)
    f["maximum"] = g.seq(.5, 1, .125, .8)
    if g.chance(.3):
        f["minimum"] = g.seq(0, .25, .0625, .7)
    return True


def _integer(g, node, key, f, y):
    if f.get("nonconvex") is not None or least(f) < 0:
        return False
    f["integer"] = True
    if "minimum" in f and g.chance(.7):
        f.pop("minimum")
    return True


def _fullload(g, node, key, f, y):
    if f.get("nominal_capacity") is None and not plain(f):
        return False
    inc = g.spec["inc"]
    used = sum(v * h for v, h in zip(y, inc))
    if isinstance(f.get("nominal_capacity"), dict):
        if f.get("nonconvex") is not None:
            return False
        f["full_load_time_max"] = round(g.num(.25, 1, .125) * sum(inc), 4)
        return True
    cap = capacity(g, f, y)
    if not cap or used < 0:
        return False
    f.pop("full_load_time_min", None)
    if g.chance(.75):
        f["full_load_time_max"] = round(used / cap * g.r.uniform(.4, 1), 3)
    else:
        f["full_load_time_min"] = round(
            used / cap * g.r.uniform(.9, 1.1) + g.num(0, .25), 3)
        f.pop("full_load_time_max", None)
    return True


def _gradient(g, node, key, f, y):
    if isinstance(f.get("nominal_capacity"), dict):
        return False
    nc = f.get("nonconvex")
    if nc is not None and ("positive_gradient_limit" in nc or
                           "negative_gradient_limit" in nc):
        return False
    if not capacity(g, f, y):
        return False
    for k in g.r.choice([["positive"], ["negative"],
                         ["positive", "negative"]]):
        f[k + "_gradient_limit"] = g.seq(.0625, .5, .0625)
    return True


def bare_capacity(node, key, f):
    """whether the capacity of this flow may be a decision"""
    if not plain(f) or least(f) < 0:
        return False
    if any(k in f for k in ("positive_gradient_limit", "lifetime",
                            "negative_gradient_limit", "fixed_costs")):
        return False
    if node["kind"] == "Offset":
        return False  # the component refuses it
    if node["kind"] == "Storage":
        if node.get("constant_soc_until") is not None or any(
                str(k).startswith("invest_relation") for k in node):
            return False
    return True


def peak(y):
    return max(max(y), 1)


def sizing(g, y, most=None):
    r = g.r
    if hasattr(g, "minvest"):
        inv = g.minvest(0, 4, .25, 12)
        inv.pop("overall_minimum", None)
    else:
        inv = {"ep_costs": round(g.num(0, 8, .5) * r.choice([.25, 1]), 3)}
        if g.chance(.6):
            inv["maximum"] = round(peak(y) * r.uniform(.5, 1.3), 2)
        if g.chance(.25):
            inv["nonconvex"] = True
            inv["offset"] = g.num(.5, 15, .5)
            inv.setdefault("maximum", round(peak(y) * 1.2, 2))
            if g.chance(.5):
                inv["minimum"] = round(inv["maximum"] * r.uniform(.2, .9), 2)
        elif g.chance(.35):
            inv["existing"] = round(peak(y) * r.uniform(.1, .7), 2)
    return inv


def _invest(g, node, key, f, y):
    if not bare_capacity(node, key, f):
        return False
    f["nominal_capacity"] = {"invest": sizing(g, y)}
    for k in "full_load_time_min", "full_load_time_max":
        f.pop(k, None)
    if g.chance(.3):
        f["maximum"] = g.seq(.5, 1, .125)
    return True


def may_switch(node, key, f):
    if not plain(f) or least(f) < 0 or node["kind"] == "Offset" or \
            "lifetime" in f or "fixed_costs" in f:
        return False
    return not any(k in f for k in ("full_load_time_min",
                                    "full_load_time_max"))


def _nonconvex(g, node, key, f, y, runlength=False):
    if not may_switch(node, key, f):
        return False
    ramps = not any(k + "_gradient_limit" in f
                    for k in ("positive", "negative"))
    if not capacity(g, f, y):
        return False
    f["nonconvex"] = g.nonconvex(runlength=runlength, costs=g.chance(.6),
                                 limits=g.chance(.4),
                                 gradients=ramps and g.chance(.25))
    for k in "startup_costs", "shutdown_costs", "activity_costs":
        if k in f["nonconvex"] and g.chance(.6):
            v = f["nonconvex"][k]
            f["nonconvex"][k] = [a / 8 for a in v] if isinstance(v, list) \
                else v / 8
    if g.chance(.8):
        f["minimum"] = g.seq(.125, .5, .125)
    return True


def _runs(g, node, key, f, y):
    return _nonconvex(g, node, key, f, y, runlength=True)


def _invest_nonconvex(g, node, key, f, y):
    if not may_switch(node, key, f) or not bare_capacity(node, key, f):
        return False
    f["nonconvex"] = g.nonconvex(costs=g.chance(.4), limits=g.chance(.3))
    inv = sizing(g, y)
    if inv.get("nonconvex"):
        inv.pop("existing", None)
    inv.setdefault("maximum", round(peak(y) * 1.2, 2))
    f["nominal_capacity"] = {"invest": inv}
    if g.chance(.8):
        f["minimum"] = g.seq(.125, .5, .125)
    return True


def _ageing(g, node, key, f, y):
    """a given capacity that costs something every year and may retire"""
    if not hasattr(g, "horizon") or not plain(f) or least(f) < 0:
        return False
    if not capacity(g, f, y):
        return False
    if g.chance(.7):
        f["fixed_costs"] = g.yearly(0, 4)
    if g.chance(.7):
        f["lifetime"] = g.r.choice([1, 2, 3, 5, 6, 10, 20])
        if g.chance(.6):
            f["age"] = g.r.randint(0, f["lifetime"])
        # what has retired cannot have a minimum
        f.pop("minimum", None)
    return True


def _costs(g, node, key, f, y):
    f["variable_costs"] = g.seq(0, 3, .25, .8)
    return True


def composed(rng, kinds, p=.15, adders=None, **kw):
    """now and then, a composed system with some flows dressed; adders: names
    of functions in mixed.py"""
    if rng.random() > p:
        return None
    from . import mixed as m
    kw.setdefault("tmax", 5)
    if rng.random() < .2:
        from .multi import MG
        kw["g"] = MG(rng)
        kw["g"].feat.append("multi-period")
    if adders is not None:
        adders = [getattr(m, a) for a in adders]
    g = m.mixed(rng, n=rng.randint(1, 3), adders=adders, **kw)
    for _ in range(4):
        if dress(g, kinds):
            break
    return g
