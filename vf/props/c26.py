"""processing.parameter_as_dict: the parameters that were handed in."""
import numbers
import warnings

import numpy as np

from oemof.solph import processing

from .. import build
from ..common import Outcome
from ..mixed import mixed
from ..ref import all_flows
from . import c31

N = {"quick": 6000, "thorough": 48000}
TAGS = {"scalar", "sequence", "none", "exclude", "model"}
NEED = {"scalar": 20000, "sequence": 8000, "none": 4000, "exclude": 1500,
        "model": 500}
RULE = ("distinct energy systems whose parameter dictionary was compared "
        "attribute by attribute with the parameters handed to the "
        "constructors")
ATTRS = ["variable_costs", "maximum", "nominal", "conversion", "fix",
         "investment", "min", "e", "label", "custom_properties", "loss",
         "ep_costs", "tariff"]


def gen(rng, k):
    if rng.random() < .15:
        c = {"spec": c31.gen(rng, k)["spec"], "features": ["multi-period"]}
    else:
        g = mixed(rng)
        c = {"spec": g.spec, "features": sorted(set(g.feat))}
    for (i, o), f in all_flows(c["spec"]).items():
        if rng.random() < .2:
            f.setdefault("custom_properties", {})["tariff"] = rng.choice(
                [1, 2.5, [float(t) for t in range(rng.randint(1, 9))],
                 "text", True, {"site": nested(rng)},
                 {"site": nested(rng), "grid": nested(rng), "x": 1}])
    c["style"] = rng.randrange(10 ** 6) if rng.random() < .6 else None
    c["model"] = rng.random() < .5
    c["keep_none"] = rng.random() < .5
    c["exclude"] = rng.sample(ATTRS, rng.randint(1, 3))
    return c


def run(c):
    out = Outcome()
    out.features = c["features"]
    s = c["spec"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = None
        if c["model"]:
            m, nodes = build.build_model(s, c["style"])
            es = m.es
        else:
            es, nodes = build.build_es(s, c["style"])
        d = processing.parameter_as_dict(m or es)
        flows = all_flows(s)
        want = {k: flow_params(f) for k, f in flows.items()}
        for b in s["buses"]:
            want[b["label"], None] = {"balanced": b.get("balanced", True),
                                      "label": b["label"]}
        for n in s["nodes"]:
            want[n["label"], None] = node_params(n, nodes)
        got = {(str(i), None if o is None else str(o)): v
               for (i, o), v in d.items()}
        if set(got) != set(want) or len(got) != len(d):
            out.bad("keys", f"{set(got) ^ set(want)}")
            return out
        for k, w in want.items():
            compare(k, w, got[k], out)
        full = processing.parameter_as_dict(m or es, exclude_none=False)
        drop(d, full, lambda a, v: v is not None, "none", out)
        base = full if c["keep_none"] else d
        part = processing.parameter_as_dict(
            m or es, exclude_none=not c["keep_none"],
            exclude_attrs=list(c["exclude"]))
        kept(part, base, tuple(c["exclude"]), out)
        if m is not None:
            other = processing.parameter_as_dict(es)
            kept(other, d, (), out, "model")
    out.kind = "optimal"
    return out


def nested(rng):
    return rng.choice([{"x": 2.5}, {"x": {"y": [1.0, 2.0]}}, 7,
                       {"x": 1, "y": "text"}, {"x": {"y": 3, "z": 4}}])


def unnest(name, v):
    """{name: {a: {b: 1}}} is known as name_a_b"""
    if not isinstance(v, dict):
        return {name: v}
    return {k: y for a, b in v.items() for k, y in
            unnest(f"{name}_{a}", b).items()}


def flow_params(f):
    w = {}
    for k, v in f.items():
        if k == "nominal_capacity" and isinstance(v, dict):
            inv = v["invest"]
            for a, b in inv.items():
                if a == "custom_properties":
                    w.update(unnest("investment_custom_properties", b))
                else:
                    w["investment_" + a] = b
        elif k == "custom_properties":
            w.update(unnest("custom_properties", v))
        elif k != "nonconvex":
            w[k] = v
    return w


def node_params(n, nodes):
    w = {"label": n["label"]}
    kind = n["kind"]
    for k, v in n.items():
        if k in ("kind", "label", "inputs", "outputs", "fuel_input",
                 "electrical_output", "heat_output"):
            continue
        if k == "nominal_capacity":
            if isinstance(v, dict):
                w.update({"investment_" + a: b for a, b in
                          v["invest"].items() if a != "custom_properties"})
            else:
                w["nominal_storage_capacity"] = v
        elif kind == "Link":
            for a, b, x in v:
                w[f"{k}_{(nodes[a], nodes[b])}"] = x
        elif isinstance(v, dict):
            w.update({f"{k}_{b}": x for b, x in v.items()})
        elif v is not None:
            w[k] = v
    if kind == "Converter":
        for b in list(n["inputs"]) + list(n["outputs"]):
            w.setdefault(f"conversion_factors_{b}", 1)
    return w


def compare(k, want, got, out):
    sc, seq = got["scalars"], got["sequences"]
    both = set(sc.index) & set(seq.columns)
    if both:
        out.bad("keys", f"{k}: {both} scalar and sequence")
    for a, v in want.items():
        if v is None:
            if a in sc.index or a in seq.columns:
                out.bad("none", f"{k}: {a} should be absent")
            continue
        if isinstance(v, list):
            if a not in seq.columns:
                out.bad("sequence", f"{k}: {a} missing, has "
                        f"{list(seq.columns)}")
                continue
            x = [float(z) for z in seq[a]]
            rest = x[len(v):]
            if x[:len(v)] != [float(z) for z in v] or not all(
                    np.isnan(z) for z in rest):
                out.bad("sequence", f"{k}: {a} is {x}, given {v}")
            out.see("sequence", len(set(v)) > 1 or len(v) == 1)
        else:
            if a not in sc.index:
                out.bad("scalar", f"{k}: {a}={v} missing")
                continue
            x = sc[a]
            if not (x == v or isinstance(v, numbers.Number)
                    and abs(x - v) < 1e-12):
                out.bad("scalar", f"{k}: {a} is {x!r}, given {v!r}")
            out.see("scalar")


def flat(d):
    """{(key, attr): value or list}"""
    r = {}
    for k, v in d.items():
        kk = (str(k[0]), str(k[1]))
        for a, x in v["scalars"].items():
            r[kk, "s", a] = x
        for a in v["sequences"].columns:
            z = v["sequences"][a]
            r[kk, "q", a] = [x for x in z if not (
                isinstance(x, float) and np.isnan(x))]
    return r


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list) or isinstance(
            a, np.ndarray):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        return a == b or abs(a - b) < 1e-12 or (a != a and b != b)
    def none(x):
        return x is None or isinstance(x, float) and x != x
    return none(a) and none(b) or str(a) == str(b)


def drop(part, full, keep, tag, out):
    p, f = flat(part), flat(full)
    for k, v in f.items():
        if keep(k, v):
            if k not in p or not equal(p[k], v):
                out.bad(tag, f"{k}: {v!r} became {p.get(k)!r}")
        else:
            out.see(tag)
            if k in p:
                out.bad(tag, f"{k} still there")
    if set(p) - set(f):
        out.bad(tag, f"only without None: {sorted(set(p) - set(f))[:4]}")


def kept(part, base, prefixes, out, tag="exclude"):
    p, b = flat(part), flat(base)
    n = 0
    for k, v in b.items():
        a = k[2]
        inner = a[11:] if a.startswith("investment_") else a
        if prefixes and (a.startswith(prefixes)
                         or inner.startswith(prefixes)):
            n += 1
            if k in p:
                out.bad(tag, f"{k} still there, excluded {prefixes}")
        elif k not in p or not equal(p[k], v):
            out.bad(tag, f"{k}: {v!r} became {p.get(k)!r}, excluded "
                    f"{prefixes}")
    if set(p) - set(b):
        out.bad(tag, f"new entries {sorted(set(p) - set(b))[:4]}")
    out.see(tag, n > 0 or not prefixes)
