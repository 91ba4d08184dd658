"""Equivalent notations of one system give one and the same model."""
import copy
import logging
import random
import warnings

import numpy as np
import pandas as pd

from oemof import solph
from oemof.solph import sequence

from .. import build, canon, observe
from ..common import Outcome
from ..gen import extremes
from .base import no_idle_flows
from . import c29

try:
    from oemof.solph._plumbing import valid_sequence
except ImportError:
    valid_sequence = None

logging.disable(logging.ERROR)
N = {"quick": 3900, "thorough": 31200}
TAGS = {"series", "aliases", "defaults", "axis", "ports", "helpers",
        "sequence", "valid_sequence"}
NEED = {"series": 130, "aliases": 60, "defaults": 60, "axis": 60,
        "ports": 60, "helpers": 60, "sequence": 2000, "valid_sequence": 300}
RULE = ("distinct pairs of notations whose models were compared row by row, "
        "and random values handed to the sequence helpers")

FLOW = ("variable_costs", "minimum", "maximum", "fix",
        "positive_gradient_limit", "negative_gradient_limit")
NC = ("startup_costs", "shutdown_costs", "activity_costs",
      "inactivity_costs", "positive_gradient_limit",
      "negative_gradient_limit", "minimum_uptime", "minimum_downtime")
STO = ("loss_rate", "fixed_losses_relative", "fixed_losses_absolute",
       "inflow_conversion_factor", "outflow_conversion_factor",
       "storage_costs")
LEV = ("min_storage_level", "max_storage_level")
INV = ("ep_costs", "maximum", "minimum", "offset")


def gen(rng, k):
    mode = rng.choice(["series", "series", "aliases", "defaults", "axis",
                       "ports", "helpers", "plumbing"])
    c = {"mode": mode, "seed": rng.randrange(10 ** 6), "features": [mode]}
    if mode == "plumbing":
        return c
    spec, feat = c29.any_spec(rng, k)
    if mode == "axis":
        while spec.get("periods"):
            spec, feat = c29.any_spec(rng, k)
    if mode == "helpers":
        spec = helper_spec(rng)
    if mode in ("series", "aliases", "defaults", "ports"):
        feat = feat + extremes(rng, spec, .4)
    if mode == "aliases" and rng.random() < .25:
        two_way(spec, rng)
    no_idle_flows(spec)
    c["spec"] = spec
    c["features"] += feat
    return c


def run(c):
    out = Outcome()
    out.features = c["features"]
    out.kind = c["mode"]
    globals()["_" + c["mode"]](c, c.get("spec"), random.Random(c["seed"]),
                               out)
    return out


def flows_of(s):
    for n in list(s["nodes"]) + list(s["buses"]):
        for key in ("inputs", "outputs", "fuel_input", "electrical_output",
                    "heat_output"):
            for f in (n.get(key) or {}).values():
                yield f


def investments(s):
    for f in list(flows_of(s)) + s["nodes"]:
        d = f.get("nominal_capacity")
        if isinstance(d, dict):
            yield d["invest"]


def stretch(d, key, n, rng, p=.8):
    v = d.get(key)
    if v is not None and not isinstance(v, (list, dict, bool)) and \
            rng.random() < p:
        d[key] = [v] * n


def _series(c, s, rng, out):
    """constants written as series, in any container"""
    a, _ = c29.model(s)
    u = copy.deepcopy(s)
    T = len(u["inc"])
    P = len(u["periods"]["years"]) if u.get("periods") else 1
    for f in flows_of(u):
        for key in FLOW:
            stretch(f, key, T, rng)
        if f.get("nonconvex"):
            for key in NC:
                stretch(f["nonconvex"], key, T, rng)
        for key in (f.get("custom_properties") or {}):
            if any(x.get("keyword") == key for x in u.get("cons", [])
                   if x["type"].startswith("integral")):
                stretch(f["custom_properties"], key, T, rng)
    for d in investments(u):
        for key in INV:
            stretch(d, key, P, rng)
    for n in u["nodes"]:
        if n["kind"] == "Storage":
            for key in STO:
                stretch(n, key, T, rng)
            for key in LEV:
                stretch(n, key, T + 1, rng)
        for key in ("conversion_factors", "normed_offsets",
                    "conversion_factor_full_condensation"):
            if isinstance(n.get(key), dict):
                for b in n[key]:
                    stretch(n[key], b, T, rng)
            elif isinstance(n.get(key), list):
                for x in n[key]:
                    if not isinstance(x[2], list) and rng.random() < .8:
                        x[2] = [x[2]] * T
    b, _ = c29.model(u, style=rng.choice([None, c["seed"]]))
    canon.same_model(a, b, out, "series", what="constants as series:")


class Renamed:
    """Hand parameters over under their former names."""

    def __init__(self, rng):
        self.rng = rng
        self.used = 0
        self.keep = {}
        self.warned = []

    def __enter__(self):
        me = self
        pairs = {
            "Flow": (solph, {"nominal_capacity": "nominal_value",
                             "minimum": "min", "maximum": "max",
                             "custom_properties": "custom_attributes"}),
            "Investment": (solph, {
                "custom_properties": "custom_attributes"}),
            "NonConvex": (solph, {
                "custom_properties": "custom_attributes"}),
            "GenericStorage": (build.COMP, {
                "nominal_capacity": "nominal_storage_capacity"}),
        }
        for name, (mod, table) in pairs.items():
            cls = getattr(mod, name)
            self.keep[name] = (mod, cls)

            def make(*args, _cls=cls, _table=table, **kw):
                new, n = {}, 0
                for k, v in kw.items():
                    if k in _table and me.rng.random() < .6 and \
                            v is not None:
                        new[_table[k]] = v
                        n += 1
                    else:
                        new[k] = v
                me.used += n
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    obj = _cls(*args, **new)
                got = sum(issubclass(x.category, FutureWarning) for x in w)
                me.warned.append((n, got, sorted(new)))
                return obj
            setattr(mod, name, make)
        return self

    def __exit__(self, *_):
        for name, (mod, cls) in self.keep.items():
            setattr(mod, name, cls)


def _aliases(c, s, rng, out):
    a, _ = c29.model(s)
    u = copy.deepcopy(s)
    for f in flows_of(u):
        if f.get("minimum") == -1 and rng.random() < .7:
            del f["minimum"]  # the deprecated keyword says the same
            f["bidirectional"] = True
            out.see("bidirectional", True)
    with Renamed(rng) as ren:
        b, _ = c29.model(u)
    canon.same_model(a, b, out, "aliases", nontrivial=ren.used > 0,
                     what="former parameter names:")
    for n, got, keys in ren.warned:
        out.see("future warning", n > 0)
        if n > got:
            out.bad("aliases", f"{n} former names among {keys}, but only "
                    f"{got} warnings")


def two_way(s, rng):
    """give some flows the documented range [-1, 1] of former bidirectional
    flows"""
    for f in flows_of(s):
        if "nominal_capacity" in f and "fix" not in f and \
                "minimum" not in f and "nonconvex" not in f and \
                rng.random() < .4:
            f["minimum"] = -1


DEFAULTS = {
    "flow": {"variable_costs": 0, "integer": False, "bidirectional": False,
             "positive_gradient_limit": None, "full_load_time_max": None,
             "negative_gradient_limit": None, "full_load_time_min": None,
             "nonconvex": None, "lifetime": None, "age": None, "fix": None,
             "fixed_costs": None},
    "nc": {"initial_status": 0, "minimum_uptime": 0, "minimum_downtime": 0,
           "maximum_startups": None, "maximum_shutdowns": None,
           "startup_costs": None, "shutdown_costs": None,
           "activity_costs": None, "inactivity_costs": None,
           "negative_gradient_limit": None,
           "positive_gradient_limit": None},
    "invest": {"maximum": float("inf"), "minimum": 0, "ep_costs": 0,
               "existing": 0, "nonconvex": False, "offset": 0,
               "overall_maximum": None, "overall_minimum": None,
               "lifetime": None, "age": 0, "fixed_costs": None},
    "storage": {"initial_storage_level": None, "min_storage_level": 0,
                "max_storage_level": 1, "balanced": True, "loss_rate": 0,
                "fixed_losses_relative": 0, "fixed_losses_absolute": 0,
                "inflow_conversion_factor": 1,
                "outflow_conversion_factor": 1, "storage_costs": None,
                "invest_relation_input_output": None,
                "invest_relation_input_capacity": None,
                "invest_relation_output_capacity": None,
                "constant_soc_until": None, "lifetime_inflow": None,
                "fraction_saturation_charging": None,
                "lifetime_outflow": None, "fixed_costs": 0},
}


def fill(d, table, rng, skip=()):
    for k, v in table.items():
        if k not in d and k not in skip and rng.random() < .6:
            d[k] = v


def _defaults(c, s, rng, out):
    """documented default values given explicitly"""
    a, _ = c29.model(s)
    u = copy.deepcopy(s)
    for f in flows_of(u):
        if f.get("nonconvex"):
            fill(f["nonconvex"], DEFAULTS["nc"], rng)
        fill(f, DEFAULTS["flow"], rng)
        if f.get("fix") is None and "minimum" not in f and \
                rng.random() < .5:
            f["minimum"] = 0
        if f.get("fix") is None and "maximum" not in f and \
                rng.random() < .5:
            f["maximum"] = 1
    for d in investments(u):
        fill(d, DEFAULTS["invest"], rng)
    for n in u["nodes"]:
        if n["kind"] == "Storage":
            fill(n, DEFAULTS["storage"], rng)
        if n["kind"] == "Converter":
            cf = n.setdefault("conversion_factors", {}) or {}
            n["conversion_factors"] = cf
            for b in list(n.get("inputs") or {}) + list(
                    n.get("outputs") or {}):
                if b not in cf and rng.random() < .7:
                    cf[b] = 1
        if n["kind"] == "Offset":
            ports = {**n["inputs"], **n["outputs"]}
            for b, f in ports.items():
                if f.get("nonconvex") is not None:
                    continue
                for key, v in (("conversion_factors", 1),
                               ("normed_offsets", 0)):
                    d = n.get(key)
                    if d is not None and b not in d and rng.random() < .7:
                        d[b] = v
    b, _ = c29.model(u)
    canon.same_model(a, b, out, "defaults", what="explicit defaults:")


def _axis(c, s, rng, out):
    """the same interval lengths told in different ways"""
    forms = ["datetime", "numeric", "increment"]
    if len(s["inc"]) >= 3 and len(set(s["inc"])) == 1:
        forms.append("infer")
    x, y = rng.sample(forms, 2)
    a, _ = c29.model(dict(s, index=x))
    b, _ = c29.model(dict(s, index=y,
                          start=rng.choice(["2020-01-01", "2023-06-15 03:10",
                                            "1999-12-31 23:30"])))
    canon.same_model(a, b, out, "axis", what=f"time axis {x} / {y}:")


def _ports(c, s, rng, out):
    """flows given at the component or at the bus; nodes added at once or
    one by one; sub-classes of the components"""
    a, _ = c29.model(s)
    moved = [0]
    orig = build.make_node
    later = []

    def make_node(n, nodes, conv):
        if n["kind"] in ("Source", "Sink") and rng.random() < .7:
            key = "outputs" if n["kind"] == "Source" else "inputs"
            node = orig(dict(n, **{key: {}}), nodes, conv)
            for b, f in n[key].items():
                flow = build.make_flow(f, conv)
                if rng.random() < .5:
                    getattr(node, key)[nodes[b]] = flow
                elif key == "outputs":
                    nodes[b].inputs[node] = flow
                else:
                    nodes[b].outputs[node] = flow
                moved[0] += 1
            return node
        return orig(n, nodes, conv)
    orig_add = solph.EnergySystem.add

    def add(self, *nodes):
        nodes = list(nodes)
        later.append(len(nodes))
        while nodes:
            k = rng.randint(1, 3)
            orig_add(self, *nodes[:k])
            nodes = nodes[k:]
            if rng.random() < .3:
                self.groups  # reading the groups in between is harmless
    build.make_node = make_node
    build.solph = Shim(add)
    try:
        b, _ = c29.model(s)
    finally:
        build.make_node = orig
        build.solph = solph
    canon.same_model(a, b, out, "ports", what="flows told at the other end:")


class Shim:
    """solph with an EnergySystem that gets its nodes in portions"""

    def __init__(self, add):
        self.add = add

    def __getattr__(self, name):
        if name != "EnergySystem":
            return getattr(solph, name)

        def make(**kw):
            es = solph.EnergySystem(**kw)
            return Portions(es, self.add)
        return make


class Portions:
    def __new__(cls, es, add):
        es.__class__ = type("EnergySystem", (solph.EnergySystem,),
                            {"add": add})
        es.__class__.signals = {}
        es.__class__.signals = Signals(solph.EnergySystem.signals)
        return es


class Signals(dict):
    """oemof.network looks its signal up by the method"""

    def __missing__(self, key):
        return next(iter(self.values()))


def helper_spec(rng):
    from ..gen import G
    g = G(rng, tmin=1, tmax=4)
    b = g.bus()
    n = 0
    for k in range(rng.randint(3, 5)):
        f = {"nominal_capacity": g.num(3, 9, .5),
             "variable_costs": g.num(0, 9, .5), "custom_properties": {}}
        if g.chance(.6):
            f["custom_properties"]["emission_factor"] = g.seq(0, 2, .25)
        if g.chance(.5):
            f["custom_properties"]["one"] = True
        elif g.chance(.6):
            f["custom_properties"]["two"] = True
        if g.chance(.6):
            f["nonconvex"] = {}
            f["custom_properties"]["count"] = 1
            n += 1
        g.source(b, **f)
    g.demand(b)
    g.backstop(b)
    g.excess(b)
    return g.spec


def _helpers(c, s, rng, out):
    """constraint helpers by keyword and with explicit lists"""
    K = solph.constraints
    which = rng.sample(["equate", "count", "emission", "integral"],
                       rng.randint(1, 4))
    nums = {k: round(rng.uniform(1, 9), 2) for k in
            ("factor1", "limit", "upper")}
    models = []
    for way in (0, 1):
        m, nodes = c29.model(s)

        def sel(key):
            return [(i, o) for i, o in m.flows
                    if key in m.flows[i, o].custom_properties]
        with observe.quiet():
            if "equate" in which and sel("one") and sel("two"):
                if way:
                    K.equate_flows(m, sel("one"), sel("two"),
                                   factor1=nums["factor1"], name="e")
                else:
                    K.equate_flows_by_keyword(m, "one", "two",
                                              factor1=nums["factor1"],
                                              name="e")
            if "count" in which and sel("count"):
                if way:
                    K.limit_active_flow_count(m, "count", sel("count"),
                                              upper_limit=1)
                else:
                    K.limit_active_flow_count_by_keyword(
                        m, "count", upper_limit=1)
            em = {k: m.flows[k] for k in sel("emission_factor")}
            if "emission" in which:
                if way:
                    K.generic_integral_limit(
                        m, "emission_factor", flows=em,
                        upper_limit=nums["limit"])
                else:
                    K.emission_limit(m, limit=nums["limit"])
            if "integral" in which and "emission" not in which:
                if way:
                    K.generic_integral_limit(
                        m, "emission_factor", limit=nums["upper"],
                        limit_name="x")
                else:
                    K.generic_integral_limit(
                        m, "emission_factor", flows=em,
                        upper_limit=nums["upper"], limit_name="y")
        models.append(m)
    canon.same_model(*models, out, "helpers",
                     what=f"constraint helpers {which}:")


def _plumbing(c, _, rng, out):
    for _ in range(40):
        one_sequence(rng, out)
        one_validity(rng, out)


def one_sequence(rng, out):
    n = rng.randint(1, 9)
    kind = rng.choice(["scalar", "int", "list", "tuple", "array", "series",
                       "str", "none", "table", "frame", "length", "bool"])
    vals = [round(rng.uniform(-5, 5), 3) for _ in range(n)]
    out.see("sequence", True)
    length = rng.choice([None, n])
    try:
        if kind in ("scalar", "int", "bool"):
            x = {"scalar": vals[0], "int": rng.randint(-4, 4),
                 "bool": rng.random() < .5}[kind]
            q = sequence(x, length=length)
            ok = all(q[t] == x for t in range(n + 3))
            ok &= q.max() == x and q.min() == x and q.value == x
            ok &= len(q) == (length or 0)
            if length:
                ok &= list(q) == [x] * n and q.sum() == n * x
                ok &= list(q.to_numpy()) == [x] * n
            ok &= list(q.to_numpy(length=n + 1)) == [x] * (n + 1)
            f = rng.choice([2, .5, -1])
            for z in (q * f, f * q):
                ok &= all(abs(z[t] - x * f) < 1e-12 for t in range(n))
                ok &= z.size == length
            ok &= abs((q / f)[0] - x / f) < 1e-12
            ok &= q[0] == x  # unchanged by arithmetic
        elif kind == "none":
            ok = sequence(None, length=length) is None
        elif kind == "str":
            ok = sequence("abc") == "abc"
        elif kind in ("table", "frame"):
            x = [[v] for v in vals] if kind == "table" else \
                pd.DataFrame({"a": vals})
            ok = raises(ValueError, sequence, x)
        elif kind == "length":
            ok = raises(ValueError, sequence, vals, n + rng.randint(1, 3))
        else:
            x = {"list": list(vals), "tuple": tuple(vals),
                 "array": np.array(vals),
                 "series": pd.Series(vals, index=range(7, 7 + n))}[kind]
            q = sequence(x, length=length)
            ok = len(q) == n and all(q[t] == vals[t] for t in range(n))
            if not isinstance(x, (tuple, list)):
                ok &= list(x) == vals
    except Exception as e:  # noqa: BLE001
        out.bad("sequence", f"{kind} {vals[:3]} length={length}: {e!r}")
        return
    if not ok:
        out.bad("sequence", f"{kind} {vals} length={length}")


def raises(kind, fn, *args):
    try:
        fn(*args)
    except kind:
        return True
    return False


def one_validity(rng, out):
    out.see("valid_sequence", True)
    if valid_sequence is None:  # not part of the public interface
        return
    n = rng.randint(1, 6)
    kind = rng.choice(["fits", "scalar", "long", "short", "none", "other",
                       "twice"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            if kind == "fits":
                ok = valid_sequence(sequence([1.5] * n), n) and not w
            elif kind == "scalar":
                q = sequence(2.5)
                ok = valid_sequence(q, n) and len(q) == n
            elif kind == "twice":
                q = sequence(2.5)
                ok = valid_sequence(q, n) and valid_sequence(q, n)
            elif kind == "long":
                ok = valid_sequence(sequence([1] * (n + 2)), n)
                ok = ok and any(issubclass(x.category, FutureWarning)
                                for x in w)
            elif kind == "short":
                ok = raises(ValueError, valid_sequence,
                            sequence([1] * n), n + 1)
            elif kind == "none":
                ok = not valid_sequence(None, n)
            else:
                ok = not valid_sequence([1] * n, n)
        except Exception as e:  # noqa: BLE001
            out.bad("valid_sequence", f"{kind} n={n}: {e!r}")
            return
    if not ok:
        out.bad("valid_sequence", f"{kind} n={n}: {[str(x) for x in w]}")
