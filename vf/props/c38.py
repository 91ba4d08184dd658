"""Nested descriptions and user-written extensions of models."""
import contextlib
import copy
import logging
import random
import warnings

from oemof import solph
from oemof.network import Node
from oemof.network import groupings
from oemof.network.network.nodes import QualifiedLabel
from pyomo.core.base.block import ScalarBlock
from pyomo.environ import Block, Constraint, value

from .. import build, canon, observe
from ..common import Outcome
from ..gen import extremes
from ..mixed import mixed
from .base import no_idle_flows, solver_for
from . import c24, c31

logging.disable(logging.ERROR)
N = {"quick": 1500, "thorough": 12000}
TAGS = {"nested", "component", "group", "model class", "sub-model"}
NEED = {"nested": 120, "component": 60, "group": 60, "model class": 30,
        "sub-model": 60, "nested results": 60, "left alone": 120}
RULE = ("distinct pairs of models (nested or extended description and flat "
        "description) whose canonical forms were compared row by row")
MODES = ["nested", "nested", "nested", "component", "group", "model class",
         "sub-model"]


def gen(rng, k):
    mode = rng.choice(MODES)
    if mode in ("nested", "group") and rng.random() < .25:
        c = c31.gen(rng, k)
        spec, feat = c["spec"], list(c.get("features") or [])
    else:
        for _ in range(8):
            g = mixed(rng)
            if mode != "component" or any(map(simple, g.spec["nodes"])):
                break
        g.feat += extremes(rng, g.spec)
        spec, feat = g.spec, sorted(set(g.feat))
    spec.pop("cons", None)
    no_idle_flows(spec)
    if mode == "component" and not any(map(simple, spec["nodes"])):
        mode = "group"
    return {"mode": mode, "spec": spec, "features": feat + [mode],
            "solver": solver_for(rng), "seed": rng.randrange(10 ** 6)}


def run(c):
    out = Outcome()
    out.features = c["features"]
    out.kind = c["mode"]
    rng = random.Random(c["seed"])
    before = list(solph.Model.CONSTRAINT_GROUPS)
    globals()["_" + c["mode"].replace(" ", "_").replace("-", "_")](
        c, c["spec"], rng, out)
    # nothing of this may stay behind for other models
    out.see("left alone", c["mode"] != "nested")
    if solph.Model.CONSTRAINT_GROUPS != before:
        out.bad("left alone", "the constraint groups of the class Model were "
                f"changed to {solph.Model.CONSTRAINT_GROUPS}")
        solph.Model.CONSTRAINT_GROUPS = before
    return out


def kwargs(s):
    kw = {}
    if s.get("discount_rate") is not None:
        kw["discount_rate"] = s["discount_rate"]
    if s.get("objw") is not None:
        kw["objective_weighting"] = s["objw"]
    return kw


def flat(s, **kw):
    with observe.quiet():
        return build.build_model(s, **kw)


# ------------------------------------------------------------------ nesting
class Orphan(Exception):
    pass


class Nest:
    """creates components somewhere in a tree of nodes"""

    def __init__(self, rng):
        self.rng = rng
        self.where = [None]
        self.roots = []
        self.names = {}
        self.places = {}
        for k in range(rng.randint(1, 4)):
            up = rng.choice(self.where)
            if up is None or rng.random() < .3:
                n = Node(f"area{k}")
                self.roots.append(n)
            else:
                name = rng.choice(["house", f"room{k}"])
                if (id(up), name) in self.places:
                    name = f"room{k}"
                self.places[id(up), name] = True
                n = up.subnode(Node, name)
            self.where.append(n)

    def __getattr__(self, name):
        if name == "experimental":
            return Nested(self, solph.components.experimental)
        return Nested(self, solph.components).__getattr__(name)

    def create(self, cls, label, **kw):
        rng = self.rng
        up = rng.choice(self.where + self.where[1:])
        if up is None:
            n = cls(label=label, **kw)
            self.roots.append(n)
        else:
            # the same name may be used again in another place
            local = rng.choice(["unit", label, label])
            key = (id(up), local)
            if key in self.places:
                local = label
            self.places[id(up), local] = True
            if rng.random() < .8:
                n = up.subnode(cls, local, **kw)
            else:
                n = cls(label=QualifiedLabel([local, "of", up.label]),
                        parent_node=up, **kw)
            if n.parent is not up or n not in up.subnodes:
                raise Orphan(f"{cls.__name__} {local} is not a part of "
                             f"{up.label}, its parent")
        new = str(n.label)
        if new in self.names:
            raise AssertionError(f"label {new} given twice")
        self.names[new] = label
        return n


class Nested:
    def __init__(self, nest, module):
        self.nest, self.module = nest, module

    def __getattr__(self, name):
        cls = own_class(getattr(self.module, name)) \
            if self.nest.rng.random() < .2 else getattr(self.module, name)
        return lambda label, **kw: self.nest.create(cls, label, **kw)


OWN = {}


def own_class(cls):
    """a class derived from one of the components by the user"""
    if cls not in OWN:
        OWN[cls] = type("My" + cls.__name__, (cls,), {"remark": "mine"})
    return OWN[cls]


@contextlib.contextmanager
def components(x):
    keep, build.COMP = build.COMP, x
    try:
        yield
    finally:
        build.COMP = keep


def nested(s, rng):
    """-> model, {new label: label}"""
    nest = Nest(rng)
    conv = build.Conv(None)
    kw = build.make_periods(s) if s.get("periods") else \
        build.make_timeindex(s)
    with observe.quiet(), components(nest):
        es = solph.EnergySystem(**kw)
        early = [r for r in nest.roots if rng.random() < .4]
        es.add(*early)
        nodes = {}
        for b in s["buses"]:
            nodes[b["label"]] = nest.create(
                own_class(solph.Bus) if rng.random() < .2 else solph.Bus,
                b["label"], balanced=b.get("balanced", True),
                inputs={nodes[k]: build.make_flow(f, conv)
                        for k, f in (b.get("inputs") or {}).items()},
                outputs={nodes[k]: build.make_flow(f, conv)
                         for k, f in (b.get("outputs") or {}).items()})
        for n in s["nodes"]:
            nodes[n["label"]] = build.make_node(n, nodes, conv)
        es.add(*[r for r in nest.roots if r not in early])
        m = solph.Model(es, **kwargs(s))
    return m, nest.names


def _nested(c, s, rng, out):
    a, _ = flat(s)
    try:
        b, names = nested(s, rng)
    except Orphan as e:
        out.bad("nested", str(e))
        return
    except AssertionError as e:
        out.inconclusive = str(e)
        return
    tree = sum(str(k) != v for k, v in names.items())
    canon.same_model(a, b, out, "nested", rename=names, nontrivial=tree > 1,
                     what=f"nested {names}:")
    if out.problems or s.get("periods") or rng.random() < .4:
        return
    from .c29 import relabel
    r = observe.Run()
    r.model = b
    with observe.quiet():
        observe.run_model(r, c["solver"])
    if r.status == "error":
        out.bad("exception", r.error)
    if r.status != "optimal":
        return
    told = relabel(s, {v: k for k, v in names.items()})
    sub = Outcome()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c24.judge(told, r, sub)
        res = solph.processing.results(b)
    out.see("nested results", tree > 1)
    for p in sub.problems:
        out.bad("nested results", p)
    want = {}
    for (name, *key), x in r.values.items():
        if name == "flow":
            want.setdefault(tuple(key[:2]), {})[key[2]] = x
    got = {tuple(map(str, k)): v for k, v in res.items() if k[1] is not None}
    if set(got) != set(want):
        out.bad("nested results", "entries of the result dictionary: "
                f"{sorted(set(got) ^ set(want))[:4]}")
        return
    for k, xs in want.items():
        seq = list(got[k]["sequences"]["flow"])[:len(xs)]
        if any(abs(x - seq[t]) > 1e-9 * (1 + abs(x)) for t, x in xs.items()):
            out.bad("nested results", f"{k}: {seq} instead of {xs}")
            return


# ------------------------------------------------------- a component of mine
class OwnBlock(ScalarBlock):
    """One input, one output, a factor and a price per unit of input energy"""

    CONSTRAINT_GROUP = True

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)

    def _create(self, group=None):
        if group is None:
            return None
        m = self.parent_block()
        self.members = sorted((str(n.label) for n in group))

        def rule(block):
            for n in group:
                (i,), (o,) = n.inputs, n.outputs
                for t in m.TIMESTEPS:
                    block.relation.add((n, t), m.flow[n, o, t] == n.factor[t]
                                       * m.flow[i, n, t])
        self.relation = Constraint(list(group), m.TIMESTEPS,
                                   noruleinit=True)
        rule(self)
        self.group = list(group)

    def _objective_expression(self):
        if not hasattr(self, "group"):
            return 0
        m = self.parent_block()
        return sum(m.flow[i, n, t] * n.price[t] * m.objective_weighting[t]
                   for n in self.group for i in n.inputs
                   for t in m.TIMESTEPS)


class OwnConverter(Node):
    def __init__(self, label, inputs, outputs, factor, price):
        super().__init__(label=label, inputs=inputs, outputs=outputs)
        self.factor, self.price = factor, price

    def constraint_group(self):
        return OwnBlock


def simple(n):
    return n["kind"] == "Converter" and len(n["inputs"]) == 1 and \
        len(n["outputs"]) == 1 and set(n["inputs"]) != set(n["outputs"])


def _component(c, s, rng, out):
    """a component with a block of its own does the same as a Converter"""
    T = len(s["inc"])
    mine = {n["label"]: [round(rng.uniform(0, 3), 2) for _ in range(T)]
            for n in s["nodes"] if simple(n) and rng.random() < .8}
    if not mine:
        mine = {next(filter(simple, s["nodes"]))["label"]: [1.5] * T}
    ref = copy.deepcopy(s)
    from ..ref import at
    for n in ref["nodes"]:
        if n["label"] in mine:
            (f,) = n["inputs"].values()
            old = f.get("variable_costs") or 0
            f["variable_costs"] = [at(old, t) + mine[n["label"]][t]
                                   for t in range(T)]

    class Some:
        experimental = solph.components.experimental

        def __getattr__(self, name):
            return getattr(solph.components, name)

        @staticmethod
        def Converter(label, inputs, outputs, conversion_factors=None):
            if label not in mine:
                return solph.components.Converter(
                    label=label, inputs=inputs, outputs=outputs,
                    conversion_factors=conversion_factors)
            cf = {k.label: v for k, v in (conversion_factors or {}).items()}
            (i,), (o,) = inputs, outputs
            return OwnConverter(
                label, inputs, outputs,
                [at(cf.get(o.label, 1), t) / at(cf.get(i.label, 1), t)
                 for t in range(T)], mine[label])
    if any(0 in (v if isinstance(v, list) else [v]) for n in s["nodes"]
           if n["label"] in mine
           for v in (n.get("conversion_factors") or {}).values()):
        out.kind = "skipped"
        return
    a, _ = flat(ref)
    with components(Some()):
        b, _ = flat(s)
    canon.same_model(a, b, out, "component", what="a component of mine:")
    if b.find_component("OwnBlock") is not None and \
            b.OwnBlock.members != sorted(mine):
        out.bad("component", f"the block got {b.OwnBlock.members} instead "
                f"of {sorted(mine)}")
    n, _ = flat(ref)
    canon.same_model(a, n, out, "left alone", what="afterwards:")


# ------------------------------------------------------------ a group of mine
class LimitBlock(ScalarBlock):
    """limits and charges the flows the user marked"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)

    def _create(self, group=None):
        self.marked = []
        if group is None:
            return None
        m = self.parent_block()
        self.marked = sorted(
            ((g[0], g[1]) for g in group), key=str)
        self.most = Constraint(
            range(len(self.marked)), m.TIMESTEPS, rule=lambda b, k, t:
            m.flow[self.marked[k] + (t,)] <=
            m.flows[self.marked[k]].custom_properties["most"])

    def _objective_expression(self):
        m = self.parent_block()
        return sum(m.flow[k + (t,)] *
                   m.flows[k].custom_properties["charge"]
                   for k in self.marked for t in m.TIMESTEPS)


def marked(stf):
    return (getattr(stf[2], "custom_properties", None) or {}).get(
        "most") is not None


def own_group():
    return groupings.FlowsWithNodes(constant_key=LimitBlock, filter=marked)


def mark(es, rng):
    keys = {}
    for k, f in es.flows().items():
        if rng.random() < .25:
            f.custom_properties["most"] = round(rng.uniform(2, 20), 1)
            f.custom_properties["charge"] = rng.choice([0, .5, 2, -1])
            keys[tuple(map(str, k))] = (f.custom_properties["most"],
                                        f.custom_properties["charge"])
    return keys


def by_hand(m, keys):
    """what the block of mine is expected to add"""
    flows = {tuple(map(str, k)): k for k in m.flows}
    m.vf_rows = Constraint(
        sorted(keys), m.TIMESTEPS, rule=lambda b, i, o, t:
        m.flow[flows[i, o] + (t,)] <= keys[i, o][0])
    m.objective.expr = m.objective.expr + sum(
        keys[k][1] * m.flow[flows[k] + (t,)] for k in keys
        for t in m.TIMESTEPS)


def _group(c, s, rng, out, cls=None):
    """a grouping and a block handed to energy system and model"""
    a, _ = flat(s)
    kw = build.make_periods(s) if s.get("periods") else \
        build.make_timeindex(s)
    grouped = rng.random() < .9
    if grouped:
        kw["groupings"] = [own_group()]
    given = list(kw.get("groupings", []))
    with observe.quiet():
        es, _ = build.build_es(s, es_kwargs=kw)
        keys = mark(es, rng)
        mine = [LimitBlock]
        mkw = dict(kwargs(s))
        if cls is None:
            mkw["constraint_groups"] = mine
        b = (cls or solph.Model)(es, **mkw)
    if mine != [LimitBlock]:
        out.bad("left alone", f"the list of constraint groups handed over "
                f"became {mine}")
    if kw.get("groupings", []) != given:
        out.bad("left alone", "the list of groupings handed over was changed")
    if grouped:
        by_hand(a, keys)
    canon.same_model(a, b, out, "group" if cls is None else "model class",
                     nontrivial=grouped and bool(keys),
                     what=f"with a group of mine for {keys}:")
    if s.get("periods"):
        return
    n, _ = flat(s)
    plain, _ = flat(s)
    canon.same_model(plain, n, out, "left alone", what="afterwards:")
    if n.find_component("LimitBlock") is not None:
        out.bad("left alone", "a block of mine in a model without it")


def _model_class(c, s, rng, out):
    class MyModel(solph.Model):
        CONSTRAINT_GROUPS = solph.Model.CONSTRAINT_GROUPS + [LimitBlock]
    if s.get("periods"):
        out.kind = "skipped"
        return
    _group(c, s, rng, out, MyModel)


# ----------------------------------------------------------- a sub-model
def _sub_model(c, s, rng, out):
    """constraints added to a model that was already built (and perhaps
    solved) bind, everything else stays as it was"""
    a, _ = flat(s)
    r = observe.Run()
    r.model = a
    if rng.random() < .5:
        with observe.quiet():
            observe.run_model(r, c["solver"])
            if r.status == "optimal" and rng.random() < .5:
                solph.processing.results(a)
    m = a
    flows = sorted(m.flows, key=str)
    used = rng.sample(flows, min(len(flows), rng.randint(1, 3)))
    w = [rng.choice([1, 2, .5]) for _ in used]
    T = len(s["inc"])
    lim = [round(rng.uniform(2, 25), 1) for _ in range(T)]
    blk = Block()
    m.add_component("MyBlock", blk)
    blk.most = Constraint(m.TIMESTEPS, rule=lambda b, t: sum(
        x * m.flow[k + (t,)] for k, x in zip(used, w)) <= lim[t])
    old = r.objective if r.status == "optimal" else None
    first = r.status
    r = observe.Run()
    r.model = m
    with observe.quiet():
        observe.run_model(r, c["solver"])
    if r.status == "error":
        out.bad("exception", r.error)
    # the same rows in a model never solved before
    b, _ = flat(s)
    names = {tuple(map(str, k)): k for k in b.flows}
    b.vf_rows = Constraint(b.TIMESTEPS, rule=lambda _, t: sum(
        x * b.flow[names[tuple(map(str, k))] + (t,)]
        for k, x in zip(used, w)) <= lim[t])
    canon.same_model(m, b, out, "sub-model", what="rows added:")
    if r.status != "optimal":
        return
    for t in range(T):
        x = sum(x * value(m.flow[k + (t,)]) for k, x in zip(used, w))
        if x > lim[t] + 1e-5 * (1 + abs(lim[t])):
            out.bad("sub-model", f"t={t}: {x} > {lim[t]}")
    if first == "optimal" and old is not None and \
            r.objective < old - 1e-5 - 1e-6 * abs(old):
        out.bad("sub-model", f"an additional constraint lowered the optimum "
                f"from {old} to {r.objective}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sub = Outcome()
        c24.judge(s, r, sub)
    for p in sub.problems:
        out.bad("sub-model", p)
