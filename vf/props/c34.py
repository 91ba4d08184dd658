"""Contradictory or incomplete descriptions are refused, valid ones not."""
import logging
import random
import warnings

import numpy as np
import pandas as pd

from oemof import solph
from oemof.solph import constraints as K
from oemof.tools import debugging

from ..common import Outcome, from_real_code, CaseTimeout

logging.disable(logging.ERROR)
N = {"quick": 18000, "thorough": 144000}
TAGS = {"refused", "accepted", "warned"}
NEED = {"refused": 2200, "accepted": 2200, "warned": 300}
RULE = ("distinct (rule, random parameters) pairs: an ill-formed description "
        "and its well-formed neighbour handed to the real constructors")
C = solph.components
NAN = object()


class R:
    """random material of one case"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.T = self.r.randint(1, 5)

    def num(self, a=.5, b=20):
        return round(self.r.uniform(a, b), 2)

    def wrap(self, xs):
        k = self.r.randrange(4)
        return (list(xs), tuple(xs), np.array(xs, dtype=float),
                pd.Series(list(xs), dtype=float))[k]

    def series(self, ok, bad, n=None):
        """a series that is `ok` except for one entry; scalar if n == 0"""
        n = self.T if n is None else n
        if self.r.random() < .3:
            return bad
        xs = [ok] * n
        xs[self.r.randrange(n)] = bad
        return self.wrap(xs)

    def flow(self, **kw):
        return solph.Flow(**kw)


def system(r, periods=False, **kw):
    if periods:
        a = pd.date_range("2020-01-01", periods=2, freq="h")
        b = pd.date_range("2021-01-01", periods=2, freq="h")
        es = solph.EnergySystem(timeindex=a.append(b),
                                timeincrement=[1] * 4, periods=[a, b],
                                infer_last_interval=False)
    else:
        es = solph.EnergySystem(
            timeindex=pd.date_range("2020-01-01", periods=r.T + 1, freq="h"),
            infer_last_interval=False)
    b = solph.Bus("bus")
    es.add(b)
    return es, b


def with_flow(r, **kw):
    es, b = system(r)
    es.add(C.Source("src", outputs={b: solph.Flow(**kw)}),
           C.Sink("snk", inputs={b: solph.Flow()}))
    return solph.Model(es)


RULES = {}


def rule(fn):
    """fn(r, bad) describes the ill-formed (bad) or well-formed system"""
    RULES[fn.__name__] = fn
    return fn


# ------------------------------------------------------------------ flows
@rule
def limit_without_capacity(r, bad):
    kw = r.r.choice([
        {"maximum": r.series(1, .5)}, {"minimum": r.series(0, .25)},
        {"fix": r.series(.5, .25)}, {"full_load_time_max": r.num()},
        {"full_load_time_min": r.num()}])
    if not bad:
        kw["nominal_capacity"] = r.num()
    with_flow(r, **kw)


@rule
def infinite_capacity(r, bad):
    x = r.r.choice([float("inf"), float("-inf"), float("nan")]) if bad \
        else r.num()
    with_flow(r, nominal_capacity=x)


@rule
def infinite_maximum(r, bad):
    with_flow(r, nominal_capacity=r.num(),
              maximum=r.series(1, float("inf") if bad else .5))


@rule
def fix_and_limits(r, bad):
    kw = {"fix": r.series(.5, .25)}
    lim = r.r.choice([{"minimum": .25}, {"maximum": .75},
                      {"maximum": [.75] * r.T}, {"minimum": [.25] * r.T},
                      {"minimum": -1}])
    if bad:
        kw.update(lim)
    with_flow(r, nominal_capacity=r.num(), **kw)


@rule
def both_names(r, bad):
    new, old, v = r.r.choice([
        ("nominal_capacity", "nominal_value", r.num()),
        ("minimum", "min", .25), ("maximum", "max", .5),
        ("custom_properties", "custom_attributes", {"a": 1})])
    kw = {} if "nominal" in new else {"nominal_capacity": r.num()}
    kw[old] = v
    if bad:
        kw[new] = v
    with_flow(r, **kw)


@rule
def both_names_options(r, bad):
    cls = r.r.choice([solph.Investment, solph.NonConvex])
    kw = {"custom_attributes": {"a": 1}}
    if bad:
        kw["custom_properties"] = {"a": 1}
    cls(**kw)


@rule
def both_names_storage(r, bad):
    es, b = system(r)
    kw = {"nominal_storage_capacity": r.num()}
    if bad:
        kw["nominal_capacity"] = kw["nominal_storage_capacity"]
    es.add(C.GenericStorage("sto", inputs={b: solph.Flow()},
                            outputs={b: solph.Flow()}, **kw))
    solph.Model(es)


@rule
def capacity_type(r, bad):
    x = r.r.choice(["5", [5], {"invest": 5}, np.array([1, 2]),
                    solph.NonConvex()]) if bad else r.r.choice(
        [5, 5.5, np.float64(3), np.int64(4), solph.Investment(maximum=4)])
    if r.r.random() < .5:
        with_flow(r, nominal_capacity=x)
    else:
        es, b = system(r)
        es.add(C.GenericStorage("sto", nominal_capacity=x,
                                inputs={b: solph.Flow()},
                                outputs={b: solph.Flow()}))
        solph.Model(es)


@rule
def two_gradients(r, bad):
    side = r.r.choice(["positive_gradient_limit", "negative_gradient_limit"])
    other = r.r.choice(["positive_gradient_limit",
                        "negative_gradient_limit"])
    kw = {"nonconvex": solph.NonConvex(**{side: .5})}
    if bad:
        kw[other] = .25
    with_flow(r, nominal_capacity=r.num(), minimum=.25, **kw)


@rule
def unlimited_nonconvex_investment(r, bad):
    inv = solph.Investment(ep_costs=1, **(
        {} if bad else {"maximum": r.num()}))
    with_flow(r, nominal_capacity=inv, nonconvex=solph.NonConvex())


# ------------------------------------------------------------ investments
@rule
def optional_investment_existing(r, bad):
    kw = {"nonconvex": True, "maximum": r.num(), "offset": r.num()}
    if bad:
        kw["existing"] = r.num()
    solph.Investment(**kw)


@rule
def optional_investment_unlimited(r, bad):
    kw = {"nonconvex": True, "offset": r.num()}
    if not bad:
        kw["maximum"] = r.num()
    elif r.r.random() < .5:
        kw["maximum"] = r.series(5.0, float("inf"), r.r.randint(1, 3))
    solph.Investment(**kw)


@rule
def offset_without_option(r, bad):
    kw = {"offset": r.series(0, r.num(), r.r.randint(1, 3)),
          "maximum": r.num()}
    if not bad:
        kw["nonconvex"] = True
    solph.Investment(**kw)


@rule
def older_than_lifetime(r, bad):
    life = r.r.randint(2, 20)
    age = life + r.r.randint(0, 3) if bad else r.r.randint(0, life - 1)
    solph.Investment(lifetime=life, age=age)


@rule
def option_is_bool(r, bad):
    x = r.r.choice([1, 0, "yes", None, solph.NonConvex()]) if bad else \
        r.r.choice([True, False])
    solph.Investment(nonconvex=x, maximum=r.num())


# ---------------------------------------------------------------- storage
def storage(r, fi=None, fo=None, ins=1, outs=1, **kw):
    es, b = system(r)
    more = [solph.Bus(f"more{k}") for k in range(3)]
    es.add(*more)
    buses = [b] + more
    es.add(C.GenericStorage(
        "sto", inputs={buses[k]: solph.Flow(**(fi or {}))
                       for k in range(ins)},
        outputs={buses[k]: solph.Flow(**(fo or {})) for k in range(outs)},
        **kw))
    return solph.Model(es)


@rule
def storage_ports(r, bad):
    kw = {}
    if bad:
        kw[r.r.choice(["ins", "outs"])] = r.r.randint(2, 4)
    storage(r, nominal_capacity=r.num(), **kw)


@rule
def initial_level(r, bad):
    lo, hi = round(r.r.uniform(0, .4), 2), round(r.r.uniform(.6, 1), 2)
    x = r.r.choice([lo - .01, hi + .01, -1, 2]) if bad else \
        r.r.choice([lo, hi, (lo + hi) / 2])
    if r.r.random() < .4:
        lo = [lo] + [0] * r.T
        hi = [hi] + [1] * r.T
    storage(r, nominal_capacity=r.num(), initial_storage_level=x,
            min_storage_level=lo, max_storage_level=hi)


@rule
def relation_needs_investments(r, bad):
    inv = {"nominal_capacity": solph.Investment(maximum=9, ep_costs=1)}
    which = r.r.choice(["input_output", "input_capacity",
                        "output_capacity"])
    need = {"input_output": ["fi", "fo"], "input_capacity": ["fi", "own"],
            "output_capacity": ["fo", "own"]}[which]
    have = {k: inv if k in need else None for k in ("fi", "fo", "own")}
    if bad:
        have[r.r.choice(need)] = None
    kw = {f"invest_relation_{which}": .5}
    storage(r, fi=have["fi"], fo=have["fo"],
            nominal_capacity=solph.Investment(maximum=9, ep_costs=1)
            if have["own"] else r.num(), **kw)


@rule
def three_relations(r, bad):
    inv = {"nominal_capacity": solph.Investment(maximum=9, ep_costs=1)}
    kw = {"invest_relation_input_output": 1,
          "invest_relation_input_capacity": .5,
          "invest_relation_output_capacity": .5}
    if not bad:
        kw.pop(r.r.choice(sorted(kw)))
    storage(r, fi=inv, fo=inv,
            nominal_capacity=solph.Investment(maximum=9, ep_costs=1), **kw)


@rule
def absolute_losses_without_capacity(r, bad):
    kw = {} if bad else r.r.choice([{"existing": r.num()},
                                    {"minimum": r.num()}])
    storage(r, nominal_capacity=solph.Investment(maximum=90, ep_costs=1,
                                                 **kw),
            fixed_losses_absolute=r.series(0, .5))


@rule
def saturation_and_investment(r, bad):
    kw = {"constant_soc_until": .75, "fraction_saturation_charging": .5}
    cap = solph.Investment(maximum=9, ep_costs=1) if bad else r.num()
    storage(r, fi={"nominal_capacity": r.num()}, nominal_capacity=cap, **kw)


@rule
def half_saturation(r, bad):
    """only one of the two parameters of the charging curve"""
    kw = {"constant_soc_until": .75, "fraction_saturation_charging": .5}
    if bad:
        kw.pop(r.r.choice(sorted(kw)))
    storage(r, fi={"nominal_capacity": r.num()}, nominal_capacity=r.num(),
            **kw)


# --------------------------------------------------------------- converters
def offset(r, fi=None, fo=None, **kw):
    es, b = system(r)
    o = solph.Bus("out")
    es.add(o)
    kw = {k: {o if x == "out" else b: v for x, v in d.items()}
          if isinstance(d, dict) else d for k, d in kw.items()}
    es.add(C.OffsetConverter(label="oc", inputs={b: solph.Flow(**fi)},
                             outputs={o: solph.Flow(**fo)}, **kw))
    return solph.Model(es)


def nc(r):
    return {"nominal_capacity": r.num(5, 9), "minimum": .5,
            "nonconvex": solph.NonConvex()}


@rule
def one_reference_flow(r, bad):
    flows = [nc(r), {}]
    if bad:
        flows = r.r.choice([[nc(r), nc(r)], [{}, {}]])
    elif r.r.random() < .5:
        flows.reverse()
    offset(r, *flows)


@rule
def factors_for_reference(r, bad):
    ref = r.r.choice(["bus", "out"])
    other = "out" if ref == "bus" else "bus"
    key = r.r.choice(["conversion_factors", "normed_offsets"])
    fi, fo = (nc(r), {}) if ref == "bus" else ({}, nc(r))
    offset(r, fi, fo, **{key: {ref if bad else other: .5}})


@rule
def investment_at_reference(r, bad):
    inv = solph.Investment(maximum=9, ep_costs=1)
    ref = dict(nc(r), nominal_capacity=r.num(5, 9) if bad else inv)
    other = {"nominal_capacity": inv} if bad else {}
    pair = (ref, other) if r.r.random() < .5 else (other, ref)
    offset(r, *pair)


@rule
def coefficients_and_replacement(r, bad):
    kw = {}
    if bad:
        kw[r.r.choice(["conversion_factors", "normed_offsets"])] = {
            "bus": 2.0}
    es, b = system(r)
    o = solph.Bus("out")
    es.add(o, C.OffsetConverter(
        label="oc", inputs={b: solph.Flow()},
        outputs={o: solph.Flow(**nc(r))}, coefficients=(-.1, .6),
        **{k: {b: 2.0} for k in kw}))
    solph.Model(es)


@rule
def link_factor_of_unknown_bus(r, bad):
    es, b = system(r)
    x, y = solph.Bus("x"), solph.Bus("y")
    es.add(x, y, C.Link("ln", inputs={b: solph.Flow(), x: solph.Flow()},
                        outputs={b: solph.Flow(), x: solph.Flow()},
                        conversion_factors={
                            (b, y if bad else x): .9, (x, b): .8}))
    solph.Model(es)


@rule
def breakpoints_below_capacity(r, bad):
    cap = r.num(5, 9)
    es, b = system(r)
    o = solph.Bus("out")
    top = cap - .5 if bad else cap + r.r.choice([0, 1])
    es.add(o, C.experimental.PiecewiseLinearConverter(
        "pwl", inputs={b: solph.Flow(nominal_capacity=cap)},
        outputs={o: solph.Flow()}, conversion_function=lambda x: x * x,
        in_breakpoints=[0, top / 2, top], pw_repn="CC"))
    solph.Model(es)


@rule
def piecewise_ports(r, bad):
    es, b = system(r)
    o, o2 = solph.Bus("out"), solph.Bus("out2")
    outs = {o: solph.Flow()}
    ins = {b: solph.Flow(nominal_capacity=5)}
    if bad:
        if r.r.random() < .5:
            outs[o2] = solph.Flow()
        else:
            ins[o2] = solph.Flow(nominal_capacity=5)
    es.add(o, o2, C.experimental.PiecewiseLinearConverter(
        "pwl", inputs=ins, outputs=outs, conversion_function=lambda x: x * x,
        in_breakpoints=[0, 3, 5], pw_repn="CC"))
    solph.Model(es)


# ------------------------------------------------------------------ series
@rule
def short_series(r, bad):
    r.T = r.r.randint(2, 6)
    n = r.r.randint(1, r.T - 1) if bad else r.T
    xs = r.wrap([round(r.r.uniform(.5, 1), 2) for _ in range(n)])
    where = r.r.choice(["fix", "maximum", "minimum", "variable_costs",
                        "loss_rate", "conversion", "level"])
    if where in ("fix", "maximum", "minimum"):
        with_flow(r, nominal_capacity=r.num(), **{where: xs})
    elif where == "variable_costs":
        with_flow(r, variable_costs=xs)
    elif where == "loss_rate":
        storage(r, nominal_capacity=r.num(), loss_rate=xs)
    elif where == "level":
        storage(r, nominal_capacity=r.num(),
                max_storage_level=list(xs) + ([] if bad else [1]))
    else:
        es, b = system(r)
        o = solph.Bus("out")
        es.add(o, C.Converter("cv", inputs={b: solph.Flow()},
                              outputs={o: solph.Flow()},
                              conversion_factors={o: xs}))
        solph.Model(es)


@rule
def table_instead_of_series(r, bad):
    xs = [round(r.r.uniform(.5, 1), 2) for _ in range(r.T)]
    if bad:
        xs = r.r.choice([pd.DataFrame({"a": xs}), [[x] for x in xs],
                         np.array([xs])])
    where = r.r.choice(["fix", "variable_costs", "maximum"])
    kw = {} if where == "variable_costs" else {"nominal_capacity": r.num()}
    with_flow(r, **{where: xs}, **kw)


# ----------------------------------------------------------------- systems
@rule
def duplicate_label(r, bad):
    es, b = system(r)
    es.add(C.Sink("same", inputs={b: solph.Flow()}))
    es.add(C.Source("same" if bad else "other",
                    outputs={b: solph.Flow()}))
    solph.Model(es)


@rule
def increment_and_index(r, bad):
    idx = pd.date_range("2020-01-01", periods=4, freq="h")
    kw = {"timeincrement": [1, 1, 1]} if bad else {}
    solph.EnergySystem(timeindex=idx, infer_last_interval=False, **kw)


@rule
def increments_positive(r, bad):
    inc = [r.num(.25, 3) for _ in range(r.T)]
    if bad:
        inc[r.r.randrange(r.T)] = r.r.choice([0, -1, -.5])
    if r.r.random() < .5:
        solph.EnergySystem(timeincrement=inc)
    else:
        pts = np.concatenate([[0], np.cumsum(inc)])
        solph.EnergySystem(timeindex=list(pts), infer_last_interval=False)


# ----------------------------------------------------- several periods
def sized_in_periods(r, what, inv, **kw):
    """a multi-period system with one capacity to be optimised"""
    es, b = system(r, periods=True)
    cap = solph.Investment(maximum=9, ep_costs=1, **inv)
    if what == "flow":
        es.add(C.Source("src", outputs={b: solph.Flow(
            nominal_capacity=cap, **kw)}))
    else:
        es.add(C.GenericStorage("sto", inputs={b: solph.Flow()},
                                outputs={b: solph.Flow()},
                                nominal_capacity=cap, **kw))
    es.add(C.Sink("snk", inputs={b: solph.Flow()}))
    return solph.Model(es)


@rule
def sized_units_have_a_lifetime(r, bad):
    sized_in_periods(r, r.r.choice(["flow", "storage"]),
                     {} if bad else {"lifetime": r.r.randint(1, 30)})


@rule
def initial_content_before_investment(r, bad):
    kw = {"initial_storage_level": r.r.choice([0, .5, 1])} if bad else {}
    sized_in_periods(r, "storage", {"lifetime": 9}, **kw)


@rule
def absolute_losses_in_periods(r, bad):
    x = r.num(.25, 2)
    inv = {"lifetime": 9, "existing": 5}
    if bad:
        sized_in_periods(r, "storage", inv,
                         fixed_losses_absolute=r.series(0, x, 4))
    else:
        sized_in_periods(r, "storage", inv, fixed_losses_absolute=r.r.choice(
            [0, [0] * 4]), fixed_losses_relative=.01)


@rule
def segments_everywhere(r, bad):
    """segmentation is used in all periods or in none"""
    a = pd.date_range("2020-01-01", periods=4, freq="h")
    b = pd.date_range("2021-01-01", periods=4, freq="h")
    par = [{"timesteps_per_period": 2, "order": [0, 1],
            "occurrences": {0: 1, 1: 1}, "timeindex": i,
            "segments": {(k, j): 1 for k in range(2) for j in range(2)}}
           for i in (a, b)]
    if bad:
        del r.r.choice(par)["segments"]
    solph.EnergySystem(timeindex=a.append(b), periods=[a, b],
                       tsa_parameters=par, infer_last_interval=False)


@rule
def segments_set_the_increments(r, bad):
    a = pd.date_range("2020-01-01", periods=4, freq="h")
    par = {"timesteps_per_period": 2, "order": [0, 1],
           "occurrences": {0: 1, 1: 1}, "timeindex": a,
           "segments": {(k, j): 1 for k in range(2) for j in range(2)}}
    kw = {"timeincrement": [1] * 4} if bad else {}
    solph.EnergySystem(timeindex=a, tsa_parameters=[par],
                       infer_last_interval=False, **kw)


@rule
def system_without_time(r, bad):
    es = solph.EnergySystem() if bad else solph.EnergySystem(
        timeincrement=[r.num() for _ in range(r.T)])
    b = solph.Bus("b")
    es.add(b, C.Source("s", outputs={b: solph.Flow()}),
           C.Sink("d", inputs={b: solph.Flow()}))
    solph.Model(es)


@rule
def start_or_year(r, bad):
    start = pd.Timestamp("2021-03-01")
    kw = r.r.choice([{"year": 2021}, {"start": start}])
    if bad:
        kw = {"year": 2021, "start": start}
    solph.create_time_index(number=r.T, interval=r.r.choice([.5, 1, 2]),
                            **kw)


@rule
def charging_curve_needs_the_flow(r, bad):
    storage(r, fi={"nominal_capacity": r.num()}, ins=0 if bad else 1,
            nominal_capacity=r.num(), constant_soc_until=.75,
            fraction_saturation_charging=.5)


@rule
def two_coefficients(r, bad):
    n = r.r.choice([1, 3]) if bad else 2
    offset(r, {}, {"nominal_capacity": r.num(5, 9), "minimum": .5,
                   "nonconvex": solph.NonConvex()},
           coefficients=[-.25, .5, .5][:n] if n > 1 else [.5])


# -------------------------------------------------------------- constraints
def limited(r, periods=False, props=None, invest=False):
    es, b = system(r, periods)
    cap = solph.Investment(maximum=9, ep_costs=1, lifetime=9) if invest \
        else 9
    es.add(C.Source("a", outputs={b: solph.Flow(
        nominal_capacity=cap, variable_costs=1,
        custom_properties=props if props is not None else {"key": 1})}),
        C.Source("c", outputs={b: solph.Flow(nominal_capacity=9)}),
        C.Sink("snk", inputs={b: solph.Flow(nominal_capacity=1, fix=2)}))
    return solph.Model(es)


@rule
def integral_without_limit(r, bad):
    m = limited(r)
    kw = {} if bad else r.r.choice([
        {"upper_limit": 5}, {"lower_limit": 1}, {"upper_limit": 0},
        {"lower_limit": 0}])
    K.generic_integral_limit(m, "key", **kw)


@rule
def integral_missing_keyword(r, bad):
    m = limited(r)
    flows = {k: f for k, f in m.flows.items()
             if str(k[0]) == "a" or bad and str(k[0]) == "c"}
    K.generic_integral_limit(m, "key", flows=flows, upper_limit=50)


@rule
def periodical_needs_periods(r, bad):
    m = limited(r, periods=not bad)
    K.generic_periodical_integral_limit(m, "key", limit=r.r.choice(
        [50, [50, 40]]))


@rule
def periodical_without_limit(r, bad):
    m = limited(r, periods=True)
    K.generic_periodical_integral_limit(m, "key",
                                        limit=None if bad else 50)


@rule
def investment_periods(r, bad):
    m = limited(r, periods=not bad, invest=True)
    K.investment_limit_per_period(m, limit=50)


@rule
def investment_period_limit(r, bad):
    m = limited(r, periods=True, invest=True)
    K.investment_limit_per_period(m, limit=None if bad else [50, 60])


# ---------------------------------------------------------------- warnings
WARN = {}


def warns(fn):
    """fn(r, on) has to warn (SuspiciousUsageWarning) if and only if on"""
    WARN[fn.__name__] = fn
    return fn


@warns
def link_shape(r, on):
    a, b = solph.Bus("a"), solph.Bus("b")
    n = [2, 2, 2]
    if on:
        n[r.r.randrange(3)] = 1
    C.Link("ln", inputs={x: solph.Flow() for x in (a, b)[:n[0]]},
           outputs={x: solph.Flow() for x in (a, b)[:n[1]]},
           conversion_factors=dict(list({(a, b): 1, (b, a): 1}.items())
                                   [:n[2]]))


@warns
def missing_ports(r, on):
    a, b = solph.Bus("a"), solph.Bus("b")
    kw = {"inputs": {a: solph.Flow()}, "outputs": {b: solph.Flow()}}
    if on:
        kw.pop(r.r.choice(["inputs", "outputs"]))
    if r.r.random() < .5:
        C.Converter("cv", **kw)
    else:
        C.GenericStorage("sto", nominal_capacity=4, **kw)


@warns
def yearly_costs(r, on):
    solph.Flow(nominal_capacity=1, **({"fixed_costs": r.num()} if on
                                      else {}))


@warns
def needless_option(r, on):
    kw = {} if on else r.r.choice([{"minimum": r.num(.5, 1)},
                                   {"offset": r.num()}])
    solph.Investment(nonconvex=True, maximum=9, **kw)


def gen(rng, k):
    if rng.random() < .12:
        return {"warn": rng.choice(sorted(WARN)),
                "seed": rng.randrange(10 ** 9), "on": rng.random() < .5}
    return {"rule": rng.choice(sorted(RULES)),
            "seed": rng.randrange(10 ** 9)}


def attempt(fn, seed, bad):
    """-> None or the exception the real code raised"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn(R(seed), bad)
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            if not from_real_code(e) and "oemof" not in repr(
                    traceback_files(e)):
                raise
            return e
    return None


def traceback_files(e):
    tb, out = e.__traceback__, []
    while tb is not None:
        out.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return out


def run(c):
    out = Outcome()
    if "warn" in c:
        out.kind = "warning"
        out.features = [c["warn"]]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            WARN[c["warn"]](R(c["seed"]), c["on"])
        got = any(issubclass(x.category, debugging.SuspiciousUsageWarning)
                  for x in w)
        out.see("warned", True)
        if got != c["on"]:
            out.bad("warned", f"{c['warn']}: warning {got}, expected "
                    f"{c['on']}")
        return out
    fn = RULES[c["rule"]]
    out.features = [c["rule"]]
    e = attempt(fn, c["seed"], True)
    out.see("refused", True)
    out.kind = type(e).__name__ if e else "accepted"
    if e is None:
        out.bad("refused", f"{c['rule']} (seed {c['seed']}) was accepted")
    elif isinstance(e, (AssertionError, RecursionError, MemoryError,
                        NameError)):
        out.bad("refused", f"{c['rule']}: {e!r} is no rejection")
    e = attempt(fn, c["seed"], False)
    out.see("accepted", True)
    if e is not None:
        out.bad("accepted", f"well-formed neighbour of {c['rule']} (seed "
                f"{c['seed']}) was refused: {e!r}")
    return out
