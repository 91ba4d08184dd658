"""Building a model depends on what the system is, not on how it is told."""
import collections
import copy
import hashlib
import json
import logging
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import pandas as pd

from oemof import solph

from .. import build, canon, observe
from ..common import SRC, VERIF, Outcome
from ..gen import extremes, ragged
from ..mixed import mixed
from .base import no_idle_flows, solver_for
from . import c18, c20, c21, c31

logging.disable(logging.ERROR)
N = {"quick": 3600, "thorough": 28800}
TAGS = {"order", "labels", "disjoint", "repeat", "arguments", "passive",
        "borrowed", "grown", "moved", "edited"}
NEED = {"order": 120, "labels": 80, "disjoint": 80, "repeat": 80,
        "arguments": 80, "passive": 80, "borrowed": 30, "grown": 80,
        "moved": 80, "edited": 80}
RULE = ("distinct pairs of models (original and transformed description) "
        "whose canonical forms were compared row by row")


def any_spec(rng, k):
    x = rng.random()
    if x < .2:
        c = c31.gen(rng, k)
    elif x < .45:
        c = rng.choice([c18, c20, c21]).gen(rng, k)
    else:
        g = mixed(rng)
        g.feat += extremes(rng, g.spec, .25)
        return g.spec, sorted(set(g.feat))
    return c["spec"], c.get("features") or []


def gen(rng, k):
    spec, feat = any_spec(rng, k)
    mode = rng.choice(["order", "order", "labels", "disjoint", "repeat",
                       "arguments", "passive", "grown", "moved", "edited"])
    c = {"mode": mode, "spec": spec, "features": feat + [mode],
         "solver": solver_for(rng), "seed": rng.randrange(10 ** 6)}
    if mode == "disjoint":
        spec.pop("cons", None)
        other = mixed(rng, T=len(spec["inc"]), inc=list(spec["inc"]),
                      invests=not spec.get("periods"))
        c["other"] = other.spec
        for key in ("objw", "discount_rate"):
            spec.pop(key, None)
            other.spec.pop(key, None)
    no_idle_flows(spec)
    return c


class Label(collections.namedtuple("Label", "sector number name")):
    """labels with structure, as in the example tuple_as_labels"""

    def __str__(self):
        return f"{self.sector}/{self.number}/{self.name}"


def labels(spec):
    return [b["label"] for b in spec["buses"]] + [
        n["label"] for n in spec["nodes"]]


def relabel(x, m):
    if isinstance(x, dict):
        return {m.get(a, a): relabel(b, m) for a, b in x.items()}
    if isinstance(x, list):
        return [relabel(v, m) for v in x]
    if isinstance(x, str):
        return m.get(x, x)
    return x


def swap_links(spec, rng):
    """reorder every dictionary of flows / factors whose order has no
    documented meaning"""
    s = copy.deepcopy(spec)
    rng.shuffle(s["buses"])
    if any(b.get("inputs") or b.get("outputs") for b in s["buses"]):
        s["buses"] = copy.deepcopy(spec["buses"])
    rng.shuffle(s["nodes"])
    for n in s["nodes"]:
        if n["kind"] == "Extraction":
            keys = ("outputs", "conversion_factors")
        elif n["kind"] in ("Converter", "Offset"):
            keys = ("inputs", "outputs", "conversion_factors",
                    "normed_offsets")
        elif n["kind"] == "Link":
            rng.shuffle(n["conversion_factors"])
            keys = ("inputs", "outputs")
        else:
            keys = ()
        for key in keys:
            if n.get(key):
                it = list(n[key].items())
                rng.shuffle(it)
                n[key] = dict(it)
    for con in s.get("cons", []):
        if con["type"] == "shared_limit":
            z = list(zip(con["components"], con["weights"]))
            rng.shuffle(z)
            con["components"] = [a for a, _ in z]
            con["weights"] = [b for _, b in z]
        for key in ("flows", "flows1", "flows2"):
            if isinstance(con.get(key), list):
                rng.shuffle(con[key])
    return s


def model(spec, **kw):
    with observe.quiet():
        m, nodes = build.build_model(spec, **kw)
    return m, nodes


def run(c):
    out = Outcome()
    out.features = c["features"]
    out.kind = c["mode"]
    rng = random.Random(c["seed"])
    s = c["spec"]
    globals()["_" + c["mode"]](c, s, rng, out)
    return out


def _order(c, s, rng, out):
    a, _ = model(s)
    b, _ = model(swap_links(s, rng), order=rng.randrange(10 ** 6))
    canon.same_model(a, b, out, "order", what="other order of nodes:")


def _labels(c, s, rng, out):
    names = labels(s)
    style = rng.choice(["permute", "prefix", "words", "tuples"])
    if style == "permute":
        new = list(names)
        rng.shuffle(new)
    elif style == "prefix":
        new = [f"x y.{k}[{n}]" for k, n in enumerate(names)]
    elif style == "tuples":
        new = [Label(rng.choice("ab"), rng.randrange(2), n) for n in names]
    else:
        pool = ["flow", "status", "invest", "None", "Bus", "0", "1", "10",
                "total", "bus", "ä", "a b", "a_b", "a-b", "storage_content",
                "duals", "-", "objective", "GenericStorage", "a.b", "12.5",
                "True", "(1, 2)", "'", '"q"', "nan", "Model", "t", "e1"]
        rng.shuffle(pool)
        new = pool[:len(names)] + [f"n{k}" for k in range(len(names))]
    m = dict(zip(names, new))
    a, _ = model(s)
    b, _ = model(relabel(s, m))
    canon.same_model(a, b, out, "labels",
                     rename={str(v): k for k, v in m.items()},
                     what=f"other labels {m}:")


def joined(s, o):
    m = {n: "o_" + n for n in labels(o)}
    o = relabel(o, m)
    u = copy.deepcopy(s)
    u["buses"] += o["buses"]
    u["nodes"] += o["nodes"]
    return u, o


def _disjoint(c, s, rng, out):
    u, o = joined(s, c["other"])
    for key in ("index", "periods", "start", "use_remaining_value"):
        o.pop(key, None)
        if key in s:
            o[key] = s[key]
    if s.get("periods"):
        multi_ready(o)
        multi_ready(u)
    parts = []
    for x in (s, o):
        parts.append(canon.Canon(model(x)[0]))
    m, _ = model(u, order=rng.randrange(10 ** 6))
    both = canon.Canon(m)
    want = copy.copy(parts[0])
    want.rows = parts[0].rows + parts[1].rows
    want.vars = {**parts[0].vars, **parts[1].vars}
    want.objective = {**parts[0].objective, **parts[1].objective}
    want.constant = parts[0].constant + parts[1].constant
    d = want.diff(both)
    out.see("disjoint", True)
    out.see("rows compared", True, sum(both.rows.values()))
    if not d:
        return
    # the rows differ: does the optimum add up?
    opts = []
    for x in (s, o, u):
        opts.append(canon.plain(model(x)[0], c["solver"]))
    if any(x[0] == "unknown" for x in opts):
        out.inconclusive = "solver"
    elif all(x[0] == "optimal" for x in opts):
        tot = opts[0][1] + opts[1][1]
        if abs(tot - opts[2][1]) > 1e-4 * (1 + abs(opts[0][1])
                                          + abs(opts[1][1])):
            out.bad("disjoint", f"optima {opts[0][1]} + {opts[1][1]}, "
                    f"together {opts[2][1]}; {d[:3]}")
        else:
            out.inconclusive = f"written differently: {d[0]}"
    else:
        ok = all(x[0] == "optimal" for x in opts[:2])
        if ok != (opts[2][0] == "optimal"):
            out.bad("disjoint", f"{opts}; {d[:3]}")
        else:
            out.inconclusive = f"written differently: {d[0]}"


def multi_ready(s):
    """single-period parts keep no capacity that needs a lifetime"""
    for n in s["nodes"]:
        if n["kind"] == "Storage" and "initial_storage_level" in n and \
                isinstance(n.get("nominal_capacity"), dict):
            n.pop("initial_storage_level")


def _repeat(c, s, rng, out):
    """the same objects, two models; solving and extracting in between"""
    with observe.quiet():
        es, nodes = build.build_es(s, c["seed"] if rng.random() < .5
                                   else None)

        def new():
            kw = {}
            if s.get("discount_rate") is not None:
                kw["discount_rate"] = s["discount_rate"]
            if s.get("objw") is not None:
                kw["objective_weighting"] = s["objw"]
            m = solph.Model(es, **kw)
            for k, con in enumerate(s.get("cons", [])):
                build.add_constraint(m, nodes, con, k)
            return m
        a = new()
        before = canon.Canon(a)
        r = observe.Run()
        r.model = a
        observe.run_model(r, c["solver"])
        if r.status == "optimal":
            solph.processing.results(a)
            solph.processing.parameter_as_dict(es)
            out.see("solved in between", True)
        # a solved model still describes the same problem
        after = canon.Canon(a)
        d = before.diff(after)
        if d:
            out.bad("repeat", f"solving changed the model: {d[:3]}")
        b = new()
    canon.same_model(a, b, out, "repeat",
                     what="second model of the same energy system:")


def watch(log):
    """hand every sequence over as an object whose copy is kept"""
    orig = build.Conv.__call__

    def conv(self, v):
        x = orig(self, v)
        if isinstance(x, (list, np.ndarray, pd.Series, dict)):
            log.append((x, copy.deepcopy(x)))
        return x
    return orig, conv


def same_object(a, b):
    if isinstance(a, pd.Series):
        return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def _arguments(c, s, rng, out):
    """the caller's data belong to the caller"""
    log = []
    orig, conv = watch(log)
    build.Conv.__call__ = conv
    kw = build.make_periods(s) if s.get("periods") else \
        build.make_timeindex(s)
    keep = {k: (v, copy.deepcopy(v)) for k, v in kw.items()}
    cons = copy.deepcopy(s.get("cons", []))
    try:
        m, nodes = model(s, style=rng.choice([None, c["seed"]]),
                         es_kwargs=kw)
    finally:
        build.Conv.__call__ = orig
    first = canon.Canon(m)
    r = observe.Run()
    r.model = m
    with observe.quiet():
        observe.run_model(r, c["solver"])
        if r.status == "optimal":
            solph.processing.results(m)
            solph.processing.parameter_as_dict(m.es)
    out.see("arguments", bool(log), max(1, len(log)))
    # (a GenericCHP derives its coefficients when the model is built, custom
    # properties are kept as they are)
    if rng.random() < .6 and not s.get("cons") and all(
            n["kind"] != "GenericCHP" for n in s["nodes"]):
        borrowed(c, s, first, rng, out)
    for x, was in log:
        if not same_object(x, was):
            out.bad("arguments", f"a sequence handed over was changed from "
                    f"{was} to {x}")
    for k, (x, was) in keep.items():
        same = x.equals(was) if isinstance(x, pd.Index) else x == was \
            if not isinstance(x, list) or not x or not isinstance(
                x[0], pd.Index) else all(
                    p.equals(q) for p, q in zip(x, was))
        if not same:
            out.bad("arguments", f"{k} was changed from {was} to {x}")
    if cons != s.get("cons", []):
        out.bad("arguments", "constraint arguments were changed")
    # changing the data afterwards does not reach into the built model
    for x, _ in log:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x *= 3
    second = canon.Canon(m)
    d = first.diff(second)
    if d:
        out.bad("arguments", f"the model changed with the data: {d[:2]}")


def scramble(x):
    """change the numbers of a container in place -> done?"""
    if isinstance(x, list) and x and all(
            isinstance(v, (int, float)) and not isinstance(v, bool)
            for v in x):
        x[:] = [7 - 2 * v for v in x]
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[:] = 7 - 2 * x
    elif isinstance(x, pd.Series):
        x[:] = 7 - 2 * x.to_numpy()
    else:
        return False
    return True


def borrowed(c, s, first, rng, out):
    """data handed over may be reused by the caller (a loop over scenarios):
    components keep the numbers they were described with"""
    log = []
    orig, conv = watch(log)
    build.Conv.__call__ = conv
    built = []

    def new(*args, **kw):
        r = build_es(*args, **kw)
        built.extend(scramble(x) for x, _ in log)
        return r
    build_es, build.build_es = build.build_es, new
    try:
        m, _ = model(s, style=rng.randrange(10 ** 6))
    finally:
        build.Conv.__call__ = orig
        build.build_es = build_es
    out.see("borrowed", any(built))
    d = first.diff(canon.Canon(m))
    if d:
        out.bad("arguments", "changing the data between the description of "
                f"the components and the model changed the model: {d[:2]}")


def _passive(c, s, rng, out):
    """things that take no part: unconnected buses, sub-nodes, properties
    nobody refers to, an additional grouping"""
    a, _ = model(s)
    orig = build.build_es

    def es_with(*args, **kw):
        es, nodes = orig(*args, **kw)
        extra = []
        for k in range(rng.randint(1, 3)):
            extra.append(solph.Bus(label=f"vf_lonely{k}",
                                   balanced=rng.random() < .7))
        if rng.random() < .5:
            extra.append(solph.components.Source(label="vf_nobody",
                                                 outputs={}))
        es.add(*extra)
        for _, f in es.flows().items():
            if rng.random() < .3:
                f.custom_properties["vf_unused"] = rng.random()
        return es, nodes
    build.build_es = es_with
    try:
        b, _ = model(s)
    finally:
        build.build_es = orig
    canon.same_model(a, b, out, "passive",
                     what="with nodes that take no part:")


class Stages:
    """adds nodes in several steps; the system is looked at in between"""

    def __init__(self, es, rng):
        self.es, self.rng, self.steps = es, rng, 0

    def add(self, *nodes):
        nodes = list(nodes)
        while nodes:
            k = self.rng.randint(1, len(nodes))
            if self.rng.random() < .5:
                k = min(k, 2)
            self.es.add(*nodes[:k])
            nodes = nodes[k:]
            self.steps += 1
            x = self.rng.random()
            if x < .5:
                # grouping happens whenever somebody asks for the groups
                len(self.es.groups)
            elif x < .7:
                self.es.flows()


def time_axis(s):
    return build.make_periods(s) if s.get("periods") else \
        build.make_timeindex(s)


def finish(s, es, nodes):
    kw = {}
    if s.get("discount_rate") is not None:
        kw["discount_rate"] = s["discount_rate"]
    if s.get("objw") is not None:
        kw["objective_weighting"] = s["objw"]
    m = solph.Model(es, **kw)
    for k, con in enumerate(s.get("cons", [])):
        build.add_constraint(m, nodes, con, k)
    return m


def _grown(c, s, rng, out):
    """nodes are added in several steps"""
    a, _ = model(s)
    with observe.quiet():
        es = solph.EnergySystem(**time_axis(s))
        if rng.random() < .3:
            len(es.groups)
        stages = Stages(es, rng)
        orig = build.solph.EnergySystem
        build.solph.EnergySystem = lambda **_: stages
        try:
            _, nodes = build.build_es(s, es_kwargs={},
                                      order=rng.randrange(10 ** 6))
        finally:
            build.solph.EnergySystem = orig
        b = finish(s, es, nodes)
    canon.same_model(a, b, out, "grown", nontrivial=stages.steps > 1,
                     what=f"nodes added in {stages.steps} steps:")


def _moved(c, s, rng, out):
    """nodes of one energy system are used in another one (with as many
    intervals: see the known findings)"""
    with observe.quiet():
        es, nodes = build.build_es(s, c["seed"] if rng.random() < .5
                                   else None)
        if rng.random() < .7:
            r = observe.Run()
            r.model = finish(s, es, nodes)
            if rng.random() < .5:
                observe.run_model(r, c["solver"])
                if r.status == "optimal":
                    solph.processing.results(r.model)
        t = copy.deepcopy(s)
        if not s.get("periods"):
            t["inc"] = [rng.choice([.25, .5, 1.0, 1.5, 2.0])
                        for _ in s["inc"]]
            t["start"] = rng.choice(["2021-03-27", "2024-02-28 12:00"])
        new = solph.EnergySystem(**time_axis(t))
        todo = list(nodes.values())
        rng.shuffle(todo)
        new.add(*todo)
        b = finish(t, new, nodes)
    a, _ = model(t)
    canon.same_model(a, b, out, "moved", what="nodes of another system:")


FLOW = ("variable_costs", "nominal_capacity", "maximum", "minimum", "fix",
        "full_load_time_max", "full_load_time_min",
        "positive_gradient_limit", "negative_gradient_limit")
NODE = ("loss_rate", "fixed_losses_relative", "fixed_losses_absolute",
        "inflow_conversion_factor", "outflow_conversion_factor",
        "storage_costs")
FACTORS = ("conversion_factors", "conversion_factor_full_condensation",
           "normed_offsets")


def _edited(c, s, rng, out):
    """a model takes the values its components have when it is built: they
    are changed between two models, as in a rolling horizon"""
    t = copy.deepcopy(s)
    ragged(rng, t, 1)
    for n, o in zip(t["nodes"], s["nodes"]):
        if "constant_soc_until" in n:
            # (the storage keeps the charging power it was created with)
            n.update(copy.deepcopy(o))
        if n["kind"] in ("Extraction", "Offset", "Converter"):
            for key in FACTORS:
                for k, x in (n.get(key) or {}).items():
                    u = 1 + rng.random() / 50
                    n[key][k] = [y * u for y in x] \
                        if isinstance(x, list) else x * u
    with observe.quiet():
        es, nodes = build.build_es(s, None)
        r = observe.Run()
        r.model = finish(s, es, nodes)
        if rng.random() < .4:
            observe.run_model(r, c["solver"])
            if r.status == "optimal":
                solph.processing.results(r.model)
        new = build.build_es(t, None)[1]
        for lab, n in new.items():
            old = nodes[lab]
            pairs = [(old, n, NODE)]
            pairs += [(old.outputs[nodes[str(b.label)]], f, FLOW)
                      for b, f in n.outputs.items()]
            pairs += [(x.investment, y.investment, ("ep_costs", "offset"))
                      for x, y, _ in pairs
                      if getattr(y, "investment", None) is not None]
            for x, y, keys in pairs:
                for key in keys:
                    if getattr(y, key, None) is not None:
                        setattr(x, key, getattr(y, key))
            for key in FACTORS:
                if key in vars(n):
                    setattr(old, key, {
                        tuple(nodes[str(x.label)] for x in k)
                        if isinstance(k, tuple) else nodes[str(k.label)]: v
                        for k, v in getattr(n, key).items()})
        b = finish(t, es, nodes)
    a, _ = model(t)
    canon.same_model(a, b, out, "edited", what="changed between two models:")


def other_horizon():
    """scalar parameters of nodes that are used again for a longer horizon"""
    bus = solph.Bus("b")
    nodes = [bus, solph.components.Source("s", outputs={
        bus: solph.Flow(variable_costs=2)}),
        solph.components.Sink("d", inputs={bus: solph.Flow(
            nominal_capacity=1, fix=[1] * 5)})]
    got = []
    with observe.quiet():
        for n in (3, 5):
            es = solph.EnergySystem(
                timeindex=pd.date_range("2023", periods=n + 1, freq="h"),
                infer_last_interval=False)
            es.add(*nodes)
            m = solph.Model(es)
            m.solve(solver="cbc")
            got.append(m.objective())
    if abs(got[1] - 10) > 1e-6:
        return f"costs of 3 and of 5 intervals: {got}, expected [6, 10]"
    return None


# ------------------------------------------------------------ hash seeds
def digest(n=12, seed=1):
    """canonical digest of some models and results (for the probe)"""
    out = []
    for k in range(n):
        rng = random.Random(f"hash:{seed}:{k}")
        spec, _ = any_spec(rng, k)
        no_idle_flows(spec)
        m, _ = model(spec)
        c = canon.Canon(m)
        out.append(repr((sorted(map(repr, c.rows.items())),
                         sorted(map(repr, c.vars.items())),
                         sorted(map(repr, c.objective.items())),
                         c.constant)))
    return hashlib.sha1("".join(out).encode()).hexdigest()


def hash_probe():
    got = {}
    for h in ("0", "1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=h,
                   PYTHONPATH=f"{VERIF}:{SRC}")
        got[h] = subprocess.run(
            [sys.executable, "-c", "import sys; sys.path.insert(0, %r); "
             "from vf.props import c29; print('D', c29.digest())" % VERIF],
            env=env, capture_output=True, text=True, timeout=110)
    ds = set()
    for h, p in got.items():
        d = [x for x in p.stdout.splitlines() if x.startswith("D ")]
        if not d:
            raise RuntimeError(p.stderr[-800:])
        ds.add(d[0])
    if len(ds) > 1:
        return f"models depend on the hash seed: {ds}"
    return None


def twice_probe():
    """the same case built twice in one process"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = digest(6, 2), digest(6, 2)
    if a != b:
        return "building the same description twice gives different models"
    return None


PROBES = [("hash seed", hash_probe), ("twice", twice_probe),
          ("other-horizon", other_horizon)]
