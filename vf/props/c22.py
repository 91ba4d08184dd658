"""Time axes: interval lengths, labels, default indices, periods."""
import datetime
import random
import warnings

import numpy as np
import pandas as pd

from oemof import solph

from .. import observe
from ..common import Outcome

N = {"quick": 7200, "thorough": 57600}
TAGS = {"increments", "energy", "index", "rejected", "yearly index",
        "periods"}
NEED = {"increments": 900, "energy": 700, "index": 600, "rejected": 150,
        "yearly index": 100, "periods": 150}
RULE = ("distinct time axes whose interval lengths, result labels, energy "
        "sums or rejections were compared with elapsed time computed from "
        "time stamps")

FREQS = ["h", "15min", "30min", "2h", "D", "7min", "90min", "s", "W", "MS",
         "YS", "B", "QS", "ME"]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "UTC",
         "Australia/Lord_Howe"]
STARTS = ["2020-01-01", "2019-12-31 20:00", "2020-02-28 12:00",
          "2021-03-27 22:00", "2021-10-30 21:00", "2024-02-28 23:30",
          "2000-12-31 23:45"]


def gen(rng, k):
    c = {"what": rng.choice(["datetime"] * 5 + ["numeric", "increment",
                                                "invalid", "yearly",
                                                "periods", "reset"])}
    c["T"] = rng.randint(1, 12)
    c["start"] = rng.choice(STARTS)
    c["rng"] = rng.randrange(10 ** 9)
    c["tz"] = rng.choice(ZONES) if rng.random() < .3 else None
    c["freq"] = rng.choice(FREQS) if rng.random() < .55 else None
    c["infer"] = rng.random() < .5 and c["freq"] is not None
    c["keepfreq"] = rng.random() < .5
    c["steps"] = [rng.choice([.25, .5, 1, 1.5, 2, 3, 24, 7.25, 1 / 3])
                  for _ in range(c["T"])]
    if c["what"] == "invalid":
        c["bad"] = rng.choice(["duplicate", "descending", "zero step",
                               "negative step", "both", "infer irregular",
                               "infer numeric", "none", "year and start",
                               "shuffled"])
    if c["what"] == "yearly":
        c["year"] = rng.choice([1999, 2000, 2012, 2014, 2019, 2020, 2023,
                                2024, 2100])
        c["interval"] = rng.choice([1, 1, .5, .25, 2, 3, 4, 24, 1 / 3, .1])
        c["number"] = rng.choice([None, None, 1, 2, 10, 25, 8760, 8784])
        c["from_start"] = rng.random() < .5
    if c["what"] == "periods":
        c["years"] = [rng.choice([2020, 2023])]
        for _ in range(rng.randint(0, 3)):
            c["years"].append(c["years"][-1] + rng.choice([1, 1, 2, 5, 10]))
        c["counts"] = [rng.randint(2, 4) for _ in c["years"]]
        c["span"] = rng.choice([1, 1, 2, 5])
    return c


def stamps(c):
    """The points in time of the axis (T+1 of them), computed in absolute
    time."""
    if c["freq"] is not None:
        return pd.date_range(c["start"], periods=c["T"] + 1, freq=c["freq"],
                             tz=c["tz"])
    t = pd.Timestamp(c["start"], tz=c["tz"])
    out = [t]
    for s in c["steps"]:
        out.append(out[-1] + datetime.timedelta(seconds=round(s * 3600)))
    return pd.DatetimeIndex(out)


def elapsed(idx):
    if isinstance(idx, pd.DatetimeIndex):
        sec = [x.timestamp() for x in idx]
        return [(b - a) / 3600 for a, b in zip(sec, sec[1:])]
    return [float(b) - float(a) for a, b in zip(idx, idx[1:])]


def run(c):
    out = Outcome()
    out.features = [c["what"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + c["what"]](c, out)
    return out


def _datetime(c, out):
    idx = stamps(c)
    hours = elapsed(idx)
    if c["infer"] and (c["T"] >= 3 or c["keepfreq"]):
        given = idx[:-1]
        if not c["keepfreq"]:
            given = pd.DatetimeIndex(list(given))
            if pd.infer_freq(given) is None:
                # e.g. a shift of daylight saving time
                return expect_error(out, AttributeError, timeindex=given,
                                    infer_last_interval=True)
            nxt = given[-1] + pd.tseries.frequencies.to_offset(
                pd.infer_freq(given))
            hours = elapsed(given) + elapsed([]) + [
                (nxt.timestamp() - given[-1].timestamp()) / 3600]
            idx = given.append(pd.DatetimeIndex([nxt]))
            if pd.tseries.frequencies.to_offset(
                    pd.infer_freq(given)).is_on_offset(nxt) is False:
                return None
        before = list(given), given.freq
        es = solph.EnergySystem(
            timeindex=given,
            infer_last_interval=[True, np.bool_(True)][c["T"] % 2])
        if (list(given), given.freq) != before:
            out.bad("mutated", "the given time index was changed")
        out.features.append("inferred")
    else:
        es = solph.EnergySystem(timeindex=idx, infer_last_interval=False)
    judge(c, out, es, idx, hours)


def _numeric(c, out):
    r = random.Random(c["rng"])
    x0 = r.choice([0, 0, 5, -3, 1.5])
    pts = [x0]
    for s in c["steps"]:
        pts.append(pts[-1] + s)
    hours = elapsed(pts)
    form = r.randrange(4)
    given = [list, tuple, np.array, lambda v: pd.Index(v)][form](pts)
    es = solph.EnergySystem(timeindex=given, infer_last_interval=False)
    judge(c, out, es, given, hours)


def _increment(c, out):
    r = random.Random(c["rng"])
    given = [list, np.array, pd.Series][r.randrange(3)](c["steps"])
    es = solph.EnergySystem(timeincrement=given)
    pts = [0]
    for s in c["steps"]:
        pts.append(pts[-1] + s)
    judge(c, out, es, pts, list(c["steps"]))


def _reset(c, out):
    """A model may override the interval lengths of the energy system."""
    idx = stamps(dict(c, tz=None))
    es = solph.EnergySystem(timeindex=idx, infer_last_interval=False)
    judge(c, out, es, idx, list(c["steps"]), timeincrement=list(c["steps"]))


def judge(c, out, es, idx, hours, **model_kw):
    T = len(hours)
    got = [float(x) for x in (model_kw.get("timeincrement")
                              or es.timeincrement)]
    out.see("increments", len(set(hours)) > 1 or hours[0] != 1)
    if len(got) != T or not np.allclose(got, hours, rtol=1e-9, atol=1e-9):
        out.bad("increments", f"interval lengths {got}, elapsed {hours}")
        return
    if len(es.timeindex) != T + 1 or any(
            a != b for a, b in zip(es.timeindex, idx)):
        out.bad("index", f"time index {list(es.timeindex)} for {list(idx)}")
        return
    r = random.Random(c["rng"])
    load = [r.choice([0.5, 1, 2, 3.5]) for _ in range(T)]
    price = [r.choice([1, 2, 4, 9]) for _ in range(T)]
    charge = [r.choice([0, .5, 1.5]) for _ in range(T)]
    bus = solph.Bus(label="b")
    src = solph.components.Source(label="src", outputs={
        bus: solph.Flow(variable_costs=price)})
    snk = solph.components.Sink(label="snk", inputs={
        bus: solph.Flow(nominal_capacity=1, fix=load)})
    cap = sum(a * b for a, b in zip(charge, hours)) + 1
    sto = solph.components.GenericStorage(
        label="sto", nominal_capacity=cap, initial_storage_level=0,
        balanced=False, inputs={bus: solph.Flow(nominal_capacity=1,
                                                fix=charge)},
        outputs={bus: solph.Flow(nominal_capacity=0)})
    es.add(bus, src, snk, sto)
    run_ = observe.solve(lambda: (solph.Model(es, **model_kw), None))
    if run_.status != "optimal":
        if run_.status == "timeout":
            out.inconclusive = "solver"
            return
        out.bad("solve", f"{run_.status} {run_.error}")
        return
    want = sum((a + q) * p * h for a, q, p, h in zip(load, charge, price,
                                                     hours))
    out.see("energy", True)
    if abs(run_.objective - want) > 1e-6 * (1 + want):
        out.bad("energy", f"costs {run_.objective}, power times elapsed time "
                f"gives {want} for {hours}")
    level = 0
    for t in range(T):
        level += charge[t] * hours[t]
        x = run_.values[("storage_content", "sto", t + 1)] if (
            "storage_content", "sto", t + 1) in run_.values else None
        if x is None or abs(x - level) > 1e-6 * (1 + cap):
            out.bad("energy", f"stored {x} after step {t}, charged energy "
                    f"is {level}")
            break
    out.see("index", True)
    res = run_.results
    for name, n in (("flow", T), ("storage_content", T + 1)):
        df = res[name]
        want_i = list(idx)[:n]
        if list(df.index) != want_i:
            out.bad("index", f"labels of {name}: {list(df.index)} instead of "
                    f"{want_i}")
    if abs(sum(res["flow"][src, bus].values) - sum(load) - sum(charge)) > 1e-6:
        out.bad("index", "flow results differ from the fixed profile")
    old = solph.processing.results(run_.model, remove_last_time_point=True)
    df = old[src, bus]["sequences"]
    out.see("index", True)
    if list(df.index) != list(idx)[:T] or any(
            abs(a - b - q) > 1e-6 for a, b, q in zip(df["flow"], load,
                                                     charge)):
        out.bad("index", f"processing.results: {df.to_dict()}")


def expect_error(out, kinds, **kw):
    try:
        es = solph.EnergySystem(**kw)
        solph.Model(es)
    except kinds:
        out.see("rejected", True)
        out.kind = "rejected"
        return
    except Exception as e:  # noqa: BLE001
        out.bad("rejected", f"{kw}: {type(e).__name__} {e} instead of "
                f"{kinds}")
        return
    out.bad("accepted", f"invalid time axis accepted: {kw}: "
            f"{list(es.timeincrement)}")


def _invalid(c, out):
    bad = c["bad"]
    out.features.append(bad)
    idx = stamps(dict(c, freq=None, tz=None))
    if bad == "duplicate":
        k = random.Random(c["rng"]).randrange(len(idx))
        return expect_error(out, TypeError, timeindex=idx[:k + 1].append(
            idx[k:]), infer_last_interval=False)
    if bad == "descending":
        return expect_error(out, TypeError, timeindex=idx[::-1],
                            infer_last_interval=False)
    if bad == "shuffled":
        vals = list(range(len(idx) + 1))
        a = random.Random(c["rng"]).randrange(len(vals) - 1)
        vals[a], vals[a + 1] = vals[a + 1], vals[a]
        return expect_error(out, TypeError, timeindex=[float(v)
                                                       for v in vals])
    if bad in ("zero step", "negative step"):
        steps = list(c["steps"])
        steps[random.Random(c["rng"]).randrange(len(steps))] = \
            0 if bad == "zero step" else -1
        return expect_error(out, TypeError, timeincrement=steps)
    if bad == "both":
        return expect_error(out, AttributeError, timeindex=idx,
                            timeincrement=c["steps"])
    if bad == "infer irregular":
        steps = [1, 2, 1, 5] + c["steps"]
        idx = stamps({"freq": None, "tz": None, "start": c["start"],
                      "steps": steps})
        return expect_error(out, AttributeError, timeindex=idx,
                            infer_last_interval=True)
    if bad == "infer numeric":
        return expect_error(out, AttributeError, timeindex=[0, 1, 2],
                            infer_last_interval=True)
    if bad == "none":
        return expect_error(out, AttributeError)
    if bad == "year and start":
        try:
            solph.create_time_index(2020, start=c["start"], number=c["T"])
        except ValueError:
            out.see("rejected")
        else:
            out.bad("accepted", "year and start together")


def _yearly(c, out):
    y, i, n = c["year"], c["interval"], c["number"]
    kw = {"interval": i}
    if n is not None:
        kw["number"] = n
    if c["from_start"]:
        t0 = pd.Timestamp(c["start"])
        kw["start"] = t0 if c["rng"] % 2 else t0.to_pydatetime()
        if c["rng"] % 3 == 0:
            t0 = t0.normalize()
            kw["start"] = t0.date()
        end = t0 + pd.DateOffset(years=1)
    else:
        kw["year"] = y
        t0 = pd.Timestamp(y, 1, 1)
        end = pd.Timestamp(y + 1, 1, 1)
    idx = solph.create_time_index(**kw)
    hours = (end - t0) / pd.Timedelta(hours=1)
    want = n if n is not None else round(hours / i)
    out.see("yearly index", True)
    if len(idx) != want + 1 or idx[0] != t0:
        out.bad("yearly index", f"{kw}: {len(idx)} points from {idx[0]}, "
                f"expected {want + 1} from {t0}")
        return
    if n is None and abs((idx[-1] - end).total_seconds()) > 1 + 1e-6 * i \
            and abs(hours / i - round(hours / i)) < 1e-9:
        out.bad("yearly index", f"{kw}: ends {idx[-1]}, year ends {end}")
    step = {round((b - a).total_seconds(), 3) for a, b in zip(idx, idx[1:])}
    if any(abs(s - i * 3600) > .01 for s in step):
        out.bad("yearly index", f"{kw}: steps of {step} s")


def _periods(c, out):
    parts, inc = [], []
    for p, (y, n) in enumerate(zip(c["years"], c["counts"])):
        t = [pd.Timestamp(y, 1, 1) + pd.Timedelta(hours=k) for k in range(n)]
        if p == len(c["years"]) - 1 and c["span"] > 1:
            t[-1] = pd.Timestamp(y + c["span"] - 1, 6, 1)
        parts.append(pd.DatetimeIndex(t))
        inc += [1.0] * n
    idx = parts[0]
    for q in parts[1:]:
        idx = idx.append(q)
    es = solph.EnergySystem(timeindex=idx, timeincrement=inc, periods=parts,
                            infer_last_interval=False)
    y0 = c["years"][0]
    out.see("periods", len(parts) > 1)
    rel = [y - y0 for y in c["years"]]
    if list(es.periods_years) != rel:
        out.bad("periods", f"years {es.periods_years} instead of {rel}")
    if es.end_year_of_optimization != rel[-1] + c["span"]:
        out.bad("periods", f"end {es.end_year_of_optimization} instead of "
                f"{rel[-1] + c['span']}")
    want = [[max(0, b - a) for b in rel] for a in rel]
    if es.periods_matrix.tolist() != want:
        out.bad("periods", f"{es.periods_matrix.tolist()} instead of {want}")
    bus = solph.Bus(label="b")
    es.add(bus, solph.components.Source(label="s", outputs={
        bus: solph.Flow()}))
    m = solph.Model(es, discount_rate=.02)
    k, want = 0, {}
    for p, n in enumerate(c["counts"]):
        want[p] = list(range(k, k + n))
        k += n
    if dict(m.TIMESTEPS_IN_PERIOD) != want:
        out.bad("periods", f"{m.TIMESTEPS_IN_PERIOD} instead of {want}")
