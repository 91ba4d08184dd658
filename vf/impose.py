"""Side constraints on composed systems: any flow, unit or storage may be
concerned, and the limits bind, because they refer to an optimum without
them."""
from .ref import Ref, all_flows, at


def impose(g, kinds):
    spec, r = g.spec, g.r
    kind = r.choice(kinds)
    ref = Ref(spec)
    st, _, x = ref.lp.solve(time_limit=5)
    if st != "optimal":
        x = {}
    if kind == "investment" and any(
            c["type"].startswith(("investment_limit", "additional"))
            for c in spec["cons"]):
        return False
    if globals()["_" + kind](g, spec, r, x):
        g.feat.append("imposed " + kind)
        return True
    return False


def some(r, items, most=6):
    items = list(items)
    return r.sample(items, r.randint(1, min(most, len(items))))


def mark(f, key, w):
    f["custom_properties"] = dict(f.get("custom_properties") or {})
    f["custom_properties"][key] = w


def near(r, value, lo=.4, hi=1.05):
    v = value * r.uniform(lo, hi)
    return round(v, 2) if value > 0 else round(value + r.uniform(0, 5), 2)


def _integral(g, spec, r, x):
    fl = all_flows(spec)
    # a further limit of the same keyword replaces the earlier one, as Pyomo
    # tells when it happens
    taken = [c.get("keyword") for c in spec["cons"]]
    key = r.choice([k for k in ("emission_factor", "space", "my_keyword")
                    if k not in taken])
    sel = some(r, fl)
    neg = r.random() < .15
    for k in sel:
        mark(fl[k], key, g.seq(-1 if neg else 0, 3, .25))
    per = spec.get("periods")
    of = [p for p, n in enumerate(per["counts"]) for _ in range(n)] \
        if per else [0] * len(spec["inc"])
    c = {"type": "integral", "keyword": key}
    use = sel
    if r.random() < .3 and len(sel) > 1:
        use = some(r, sel)
        c["flows"] = [list(k) for k in use]
    used = [0.0] * (of[-1] + 1)
    for i, o in use:
        w = fl[i, o]["custom_properties"][key]
        for t, h in enumerate(spec["inc"]):
            used[of[t]] += x.get(("flow", i, o, t), 5) * h * at(w, t)
    if per and r.random() < .6:
        c["type"] = "integral_period"
        c["limit"] = [near(r, u) for u in used]
        if r.random() < .3:
            c["limit"] = max(c["limit"])
    else:
        u = sum(used)
        if r.random() < .25:
            c["lower"] = near(r, u, .9, 1.3)
        if "lower" not in c or r.random() < .3:
            c["upper"] = max(near(r, u), c.get("lower", -1e9))
    spec["cons"].append(c)
    return True


def sized(spec):
    return {k: f for k, f in all_flows(spec).items()
            if isinstance(f.get("nominal_capacity"), dict)}


def periods(spec):
    return range(len(spec["periods"]["years"]) if spec.get("periods") else 1)


def _investment(g, spec, r, x):
    fl = sized(spec)
    stores = [n for n in spec["nodes"] if n["kind"] == "Storage" and
              isinstance(n["nominal_capacity"], dict)]
    if not fl and not stores:
        return False
    multi = bool(spec.get("periods"))
    mode = r.choice(["cost", "area"] + ["period"] * multi)
    if mode == "area":
        if not fl:
            return False
        tot = 0
        for k in some(r, fl):
            inv = fl[k]["nominal_capacity"]["invest"]
            w = g.num(.25, 3, .25)
            inv["custom_properties"] = {"area": w}
            tot += sum(w * x.get(("invest",) + k + (p,), 4)
                       for p in periods(spec))
        spec["cons"].append({"type": "additional_limit", "keyword": "area",
                             "limit": near(r, tot)})
        return True
    ref = Ref(spec)
    per = [0.0 for _ in periods(spec)]
    for (_, p), d in getattr(ref, "period_cost", {}).items():
        per[p] += sum(v * x.get(k, 3) for k, v in d.items())
    if mode == "cost":
        spec["cons"].append({"type": "investment_limit",
                             "limit": near(r, sum(per))})
    else:
        spec["cons"].append({"type": "investment_limit_period",
                             "limit": [near(r, v) for v in per]})
    return True


def _coupling(g, spec, r, x):
    fl = list(all_flows(spec))
    T = range(len(spec["inc"]))
    stores = [n["label"] for n in spec["nodes"] if n["kind"] == "Storage" and
              not isinstance(n["nominal_capacity"], dict)]
    busy = [list(k) for k, f in all_flows(spec).items()
            if f.get("nonconvex") is not None]
    mode = r.choice(["shared", "equate", "count"])
    if mode == "count" and busy:
        sel = some(r, busy)
        c = {"type": "flow_count", "flows": sel, "lower": 0,
             "upper": r.randint(0, len(sel))}
        if r.random() < .3:
            c["lower"] = r.randint(0, c["upper"])
        spec["cons"].append(c)
        return True
    if mode == "equate":
        # one flow may have to follow another one, up to a factor
        free = [k for k, f in all_flows(spec).items()
                if f.get("fix") is None]
        if len(free) < 2:
            return False
        u = [list(k) for k in r.sample(free, min(len(free), r.choice(
            [2, 2, 3])))]
        a = max(x.get(("flow", *u[0], t), 1) for t in T)
        b = max(x.get(("flow", *u[-1], t), 1) for t in T)
        c = {"type": "equate_flows", "flows1": u[:1], "flows2": u[1:],
             "factor1": round(b / a, 3) if a > .1 and b > .1 else 1.5}
        spec["cons"].append(c)
        return True
    if stores and r.random() < .4:
        sel = [[s] for s in some(r, stores)]
        q = "storage_content"
    else:
        sel = [list(k) for k in some(r, fl, 4)]
        q = "flow"
    w = [g.num(.25, 2) for _ in sel]
    peak = max(sum(a * x.get((q, *k, t), 3) for a, k in zip(w, sel))
               for t in T)
    spec["cons"].append({
        "type": "shared_limit", "quantity": q, "components": sel,
        "weights": w, "lower": 0 if r.random() < .8 else None,
        "upper": max(near(r, peak), 0)})
    return True
