"""Spec -> real oemof.solph objects (see ref.py for the spec format)."""
import collections
import datetime
import random
import warnings

import numpy as np
import pandas as pd

from oemof import solph

START = "2020-01-01"
COMP = solph.components


class Label(collections.namedtuple("Label", "number name")):
    """A label with structure, printed like a plain one"""

    def __str__(self):
        return self.name


class Conv:
    """Hands numeric sequences over in varying container types."""

    def __init__(self, style=None):
        self.rng = None if style is None else random.Random(style)
        self.told = {}
        self.structured = self.rng and self.rng.random() < .15

    def label(self, name):
        if self.structured and self.rng.random() < .8:
            return Label(self.rng.randrange(10), name)
        return name

    def shared(self, d, make):
        """One object for equal data of several flows, now and then"""
        if self.rng is None or self.rng.random() < .4:
            return make()
        key = make.__name__ + repr(d)
        if key not in self.told:
            self.told[key] = make()
        return self.told[key]

    def __call__(self, v):
        if isinstance(v, list):
            if self.rng is None:
                return list(v)
            k = self.rng.randrange(4)
            if k == 0:
                return list(v)
            if k == 1:
                return tuple(v)
            if k == 2:
                return np.array(v, dtype=float)
            return pd.Series(v, index=range(3, 3 + len(v)), dtype=float)
        if self.rng is not None and self.rng.random() < .3:
            # scalars as they come out of a table
            if isinstance(v, bool):
                return np.bool_(v)
            if isinstance(v, int):
                return np.int64(v)
            if isinstance(v, float):
                return np.float64(v)
        return v


def make_invest(d, conv):
    def investment():
        return solph.Investment(**{k: v if isinstance(v, bool) else conv(v)
                                   for k, v in d.items()})

    return conv.shared(d, investment)


def make_nonconvex(d, conv):
    ints = ("minimum_uptime", "minimum_downtime")

    def nonconvex():
        return solph.NonConvex(**{
            a: (list(b) if isinstance(b, list) and a in ints else conv(b))
            for a, b in d.items()})

    return conv.shared(d, nonconvex)


def make_flow(f, conv):
    kw = {}
    for k, v in f.items():
        if k == "nominal_capacity" and isinstance(v, dict):
            v = make_invest(v["invest"], conv)
        elif k == "nonconvex":
            if v is None:
                continue
            v = make_nonconvex(v, conv)
        elif k == "custom_properties":
            v = {a: b if isinstance(b, list) and
                 isinstance(c, pd.Series) else c
                 for a, b in v.items() for c in [conv(b)]}
        else:
            v = conv(v)
        kw[k] = v
    return solph.Flow(**kw)


def make_timeindex(spec):
    inc = spec["inc"]
    mode = spec.get("index", "datetime")
    pts = np.concatenate([[0.0], np.cumsum(np.array(inc, dtype=float))])
    if mode == "numeric":
        return {"timeindex": [float(x) for x in pts]}
    if mode == "increment":
        return {"timeincrement": [float(x) for x in inc]}
    start = pd.Timestamp(spec.get("start", START))
    idx = pd.DatetimeIndex(
        [start + datetime.timedelta(seconds=round(float(x) * 3600))
         for x in pts])
    if mode == "infer" and len(inc) >= 3 and len(set(inc)) == 1:
        return {"timeindex": idx[:-1], "infer_last_interval": True}
    return {"timeindex": idx, "infer_last_interval": False}


def make_periods(spec):
    per = spec["periods"]
    idx, parts = None, []
    for p, (y, c) in enumerate(zip(per["years"], per["counts"])):
        span = per.get("last_span", 1) if p == len(per["years"]) - 1 else 1
        stamps = [pd.Timestamp(f"{y}-01-01") + pd.Timedelta(hours=k)
                  for k in range(c)]
        if span > 1:
            stamps[-1] = stamps[-1] + pd.DateOffset(years=span - 1)
        parts.append(pd.DatetimeIndex(stamps))
    idx = parts[0]
    for q in parts[1:]:
        idx = idx.append(q)
    if per.get("end"):
        # an additional last time point, as in models with one period
        idx = idx.append(pd.DatetimeIndex([
            idx[-1] + pd.Timedelta(hours=float(spec["inc"][-1]))]))
    return {"timeindex": idx, "timeincrement": [float(x) for x in
                                                spec["inc"]],
            "periods": parts, "infer_last_interval": False,
            "use_remaining_value": bool(spec.get("use_remaining_value"))}


def build_es(spec, style=None, order=None, es_kwargs=None):
    """-> (EnergySystem, {label: node})"""
    conv = Conv(style)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if es_kwargs is not None:
            kw = es_kwargs
        elif spec.get("periods"):
            kw = make_periods(spec)
        else:
            kw = make_timeindex(spec)
        es = solph.EnergySystem(**kw)
        nodes = {}
        buses = list(spec["buses"])
        for b in buses:
            nodes[b["label"]] = solph.Bus(
                label=conv.label(b["label"]), balanced=conv(b.get("balanced", True)),
                inputs={nodes[k]: make_flow(f, conv)
                        for k, f in (b.get("inputs") or {}).items()},
                outputs={nodes[k]: make_flow(f, conv)
                         for k, f in (b.get("outputs") or {}).items()})
        todo = list(spec["nodes"])
        if order is not None:
            random.Random(order).shuffle(todo)
        for n in todo:
            nodes[n["label"]] = make_node(n, nodes, conv)
        allnodes = list(nodes.values())
        if order is not None:
            random.Random(order + 1).shuffle(allnodes)
        es.add(*allnodes)
    return es, nodes


def make_node(n, nodes, conv):
    def flows(d):
        return {nodes[b]: make_flow(f, conv) for b, f in (d or {}).items()}

    kind = n["kind"]
    ins, outs = flows(n.get("inputs")), flows(n.get("outputs"))
    lab = conv.label(n["label"])
    if kind == "Source":
        return COMP.Source(label=lab, outputs=outs)
    if kind == "Sink":
        return COMP.Sink(label=lab, inputs=ins)
    if kind == "Converter":
        cf = n.get("conversion_factors")
        return COMP.Converter(
            label=lab, inputs=ins, outputs=outs,
            conversion_factors=None if cf is None else {
                nodes[b]: conv(v) for b, v in cf.items()})
    if kind == "Link":
        return COMP.Link(
            label=lab, inputs=ins, outputs=outs,
            conversion_factors={(nodes[a], nodes[b]): conv(v)
                                for a, b, v in n["conversion_factors"]})
    if kind == "Extraction":
        return COMP.ExtractionTurbineCHP(
            label=lab, inputs=ins, outputs=outs,
            conversion_factors={nodes[b]: conv(v) for b, v in
                                n["conversion_factors"].items()},
            conversion_factor_full_condensation={
                nodes[b]: conv(v) for b, v in
                n["conversion_factor_full_condensation"].items()})
    if kind == "Offset":
        kw = {}
        if n.get("coefficients"):
            # the deprecated way to tell the same line
            kw["coefficients"] = [conv(v) for v in n["coefficients"]]
        for key in ("conversion_factors", "normed_offsets"):
            if n.get(key) is not None and "coefficients" not in kw:
                kw[key] = {nodes[b]: conv(v) for b, v in n[key].items()}
        return COMP.OffsetConverter(label=lab, inputs=ins, outputs=outs, **kw)
    if kind == "GenericCHP":
        return COMP.GenericCHP(
            label=lab, fuel_input=flows(n["fuel_input"]),
            electrical_output=flows(n["electrical_output"]),
            heat_output=flows(n["heat_output"]), beta=conv(n["beta"]),
            back_pressure=conv(n["back_pressure"]))
    if kind == "Storage":
        kw = {}
        for k, v in n.items():
            if k in ("kind", "label", "inputs", "outputs"):
                continue
            if k == "nominal_capacity" and isinstance(v, dict):
                v = make_invest(v["invest"], conv)
            kw[k] = conv(v)
        return COMP.GenericStorage(label=lab, inputs=ins, outputs=outs, **kw)
    if kind == "CAES":
        return COMP.experimental.GenericCAES(
            label=lab, electrical_input=flows(n["electrical_input"]),
            fuel_input=flows(n["fuel_input"]),
            electrical_output=flows(n["electrical_output"]),
            params={k: conv(v) for k, v in n["params"].items()})
    if kind == "PWL":
        fn = n["function"]
        return COMP.experimental.PiecewiseLinearConverter(
            label=lab, inputs=ins, outputs=outs,
            conversion_function=make_pwl_function(fn),
            in_breakpoints=list(n["in_breakpoints"]),
            pw_repn=n.get("pw_repn", "CC"))
    raise KeyError(kind)


def make_pwl_function(coeffs):
    def fn(x):
        return sum(c * x ** k for k, c in enumerate(coeffs))
    return fn


def build_model(spec, style=None, order=None, es_kwargs=None, **model_kw):
    es, nodes = build_es(spec, style, order, es_kwargs)
    kw = dict(model_kw)
    if spec.get("discount_rate") is not None:
        kw["discount_rate"] = spec["discount_rate"]
    if spec.get("objw") is not None:
        kw["objective_weighting"] = spec["objw"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = solph.Model(es, **kw)
        for k, c in enumerate(spec.get("cons", [])):
            add_constraint(m, nodes, c, k)
    return m, nodes


def add_constraint(m, nodes, c, k):
    K = solph.constraints
    typ = c["type"]

    def fl(x):
        return [(nodes[a], nodes[b]) for a, b in x]

    if typ == "integral":
        flows = None
        if c.get("flows"):
            flows = {(nodes[a], nodes[b]): m.flows[nodes[a], nodes[b]]
                     for a, b in c["flows"]}
        if c["keyword"] == "emission_factor" and c.get("lower") is None \
                and c.get("api") == "emission":
            K.emission_limit(m, flows=flows, limit=c["upper"])
        else:
            K.generic_integral_limit(
                m, c["keyword"], flows=flows, upper_limit=c.get("upper"),
                lower_limit=c.get("lower"), limit_name=c.get("name"))
    elif typ == "integral_period":
        flows = None
        if c.get("flows"):
            flows = {(nodes[a], nodes[b]): m.flows[nodes[a], nodes[b]]
                     for a, b in c["flows"]}
        if c["keyword"] == "emission_factor":
            K.emission_limit_per_period(m, flows=flows, limit=c["limit"])
        else:
            K.generic_periodical_integral_limit(
                m, c["keyword"], flows=flows, limit=c["limit"])
    elif typ == "investment_limit":
        K.investment_limit(m, limit=c["limit"])
    elif typ == "investment_limit_period":
        K.investment_limit_per_period(m, limit=c["limit"])
    elif typ == "additional_limit":
        K.additional_investment_flow_limit(m, c["keyword"], limit=c["limit"])
    elif typ == "equate_flows":
        if c.get("keywords"):
            K.equate_flows_by_keyword(m, *c["keywords"],
                                      factor1=c.get("factor1", 1),
                                      name=f"eqk{k}")
        else:
            K.equate_flows(m, fl(c["flows1"]), fl(c["flows2"]),
                           factor1=c.get("factor1", 1), name=f"eqf{k}")
    elif typ == "equate_variables":
        K.equate_variables(m, find_var(m, nodes, c["var1"]),
                           find_var(m, nodes, c["var2"]),
                           factor1=c.get("factor1", 1), name=f"eqv{k}")
    elif typ == "shared_limit":
        blk = {"storage_content": "GenericStorageBlock",
               "flow": None, "status": "NonConvexFlowBlock"}[c["quantity"]]
        q = getattr(m if blk is None else getattr(m, blk), c["quantity"])
        comps = [nodes[x[0]] if len(x) == 1 else
                 (nodes[x[0]], nodes[x[1]]) for x in c["components"]]
        K.shared_limit(m, q, f"sl{k}", comps, c["weights"],
                       lower_limit=c.get("lower"), upper_limit=c.get("upper"))
    elif typ == "flow_count":
        if c.get("keyword"):
            K.limit_active_flow_count_by_keyword(
                m, c["keyword"], lower_limit=c.get("lower"),
                upper_limit=c.get("upper"))
        else:
            K.limit_active_flow_count(
                m, f"fc{k}", fl(c["flows"]), lower_limit=c.get("lower"),
                upper_limit=c.get("upper"))
    elif typ == "storage_level":
        K.storage_level_constraint(
            m, f"slc{k}", nodes[c["storage"]], nodes[c["bus"]],
            {nodes[i]: v for i, v in c["input_levels"].items()},
            {nodes[o]: v for o, v in c["output_levels"].items()})
    else:
        raise KeyError(typ)


def find_var(m, nodes, name):
    """("invest", i, o, p) -> pyomo variable, looked up by public names."""
    from pyomo.environ import Var
    want = tuple(k if isinstance(k, int) else str(k) for k in name[1:])
    for comp in m.component_objects(Var, active=True):
        if comp.local_name != name[0]:
            continue
        for idx in comp:
            key = idx if isinstance(idx, tuple) else (idx,)
            if tuple(str(k) if not isinstance(k, int) else k
                     for k in key) == want:
                return comp[idx]
    raise KeyError(name)
