"""Aggregated time series: the system that an aggregated model stands for.

spec["tsa"] = [{"order": [k, ...], "steps": n, "segments": {(k, s): length}}]
holds one entry per period; all series of the spec are aggregated (typical
period after typical period).  unfold() repeats them in the given order.
"""
import copy

import pandas as pd

PER_PERIOD = {"invest", "invest_relation_input_capacity", "inputs_order",
              "invest_relation_output_capacity", "fixed_costs",
              "invest_relation_input_output"}


TIMED = {"flow", "status", "startup", "shutdown", "status_nominal", "Y", "P_woDH", "H_F",
         "Q_CW_min"}
GATES = ("_active_input", "_active_output")
LEVELS = {"min_storage_level", "max_storage_level"}


def layout(spec):
    """-> [(p, i, k, g, aggregated index)] over the unfolded time steps"""
    out, base = [], 0
    for p, a in enumerate(spec["tsa"]):
        n = a["steps"]
        for i, k in enumerate(a["order"]):
            out += [(p, i, k, g, base + k * n + g) for g in range(n)]
        base += n * (max(a["order"]) + 1)
    return out


def unfold(spec):
    rep = [x[4] for x in layout(spec)]
    T = len(spec["inc"])

    def walk(v, key=None):
        if key in PER_PERIOD:
            return copy.deepcopy(v)
        if isinstance(v, dict):
            return {k: walk(x, k) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            if len(v) == T and all(isinstance(x, (int, float)) for x in v):
                # contents at the end share the limits of the last step
                last = [v[rep[-1]]] if key in LEVELS else []
                return [v[r] for r in rep] + last
            return [walk(x) for x in v]
        return v

    out = {k: v for k, v in spec.items() if k not in (
        "inc", "nodes", "buses", "tsa", "index", "periods")}
    out["inc"] = [spec["inc"][r] for r in rep]
    out["nodes"], out["buses"] = walk(spec["nodes"]), walk(spec["buses"])
    for n in out["nodes"]:
        if n["kind"] == "Storage" and isinstance(n["nominal_capacity"], dict):
            # pinned by the tests of the repository
            n["balanced"] = False
    if spec.get("periods"):
        out["periods"] = dict(spec["periods"], counts=[
            len(a["order"]) * a["steps"] for a in spec["tsa"]])
    return out


def tie(ref, spec):
    """Operation is decided once per typical period."""
    sized = {n["label"] for n in spec["nodes"] if n["kind"] == "Storage" and
             isinstance(n["nominal_capacity"], dict)}
    end = len(layout(spec))
    # known finding, see the probe in c33
    ref.lp.rows = [r for r in ref.lp.rows if not (
        r[0] == "storage_level" and r[1][1] in sized and r[1][2] == end)]
    first = {}
    rep = [x[4] for x in layout(spec)]
    for name in list(ref.lp.names):
        if name[0] not in TIMED:
            continue
        key = name[:-1] + (rep[name[-1]],)
        if key in first:
            ref.lp.con("typical", name, {name: 1, first[key]: -1}, 0, 0)
        else:
            first[key] = name


def spread(spec, values):
    """Values of the aggregated model -> values of the unfolded one."""
    lay = layout(spec)
    out = {}
    for name, v in values.items():
        if name[0] in TIMED:
            continue
        if name[0] in ("inter_storage_content", "intra_storage_delta"):
            continue
        if name[0].endswith(GATES):
            continue
        out[name] = v
    for t, (p, i, k, g, r) in enumerate(lay):
        for name, v in values.items():
            if name[0] in TIMED and \
                    name[-1] == r:
                out[name[:-1] + (t,)] = v
            elif name[0].endswith(GATES) and name[2:] == (p, k, g):
                out[name[:2] + (t,)] = v
    for n in spec["nodes"]:
        if n["kind"] != "Storage":
            continue
        lab, c = n["label"], -1
        for t, (p, i, k, g, r) in enumerate(lay):
            if g == 0:
                c += 1
                keep = 1.0
            out[("storage_content", lab, t)] = keep * values[
                ("inter_storage_content", lab, c)] + values[
                ("intra_storage_delta", lab, p, k, g)]
            loss = n.get("loss_rate", 0)
            loss = loss[r] if isinstance(loss, list) else loss
            keep *= (1 - loss) ** spec["inc"][r]
        out[("storage_content", lab, len(lay))] = values[
            ("inter_storage_content", lab, c + 1)]
    return out


def arguments(spec):
    """Keyword arguments of the EnergySystem."""
    freq = pd.Timedelta(hours=spec.get("step", 1))
    params = []
    for a in spec["tsa"]:
        d = {"order": list(a["order"]), "timesteps_per_period": a["steps"]}
        if a.get("segments"):
            d["segments"] = {(k, s): n for k, s, n in a["segments"]}
            d["timesteps_per_period"] = sum(
                n for k, s, n in a["segments"] if k == 0)
        params.append(d)
    seg = bool(spec["tsa"][0].get("segments"))
    kw = {"tsa_parameters": params, "infer_last_interval": False}
    T = len(spec["inc"])
    if not spec.get("periods"):
        if seg:
            idx = pd.date_range("2020-01-01", periods=T, freq=freq)
        elif spec.get("infer"):
            idx = pd.date_range("2020-01-01", periods=T, freq=freq)
            kw["infer_last_interval"] = True
        else:
            idx = pd.date_range("2020-01-01", periods=T + 1, freq=freq)
        kw["timeindex"] = idx
        if spec.get("plain") and len(params) == 1:
            kw["tsa_parameters"] = params[0]
        return kw
    per = [pd.date_range(f"{y}-01-01", periods=c, freq=freq) for y, c in zip(
        spec["periods"]["years"], spec["periods"]["counts"])]
    idx = per[0]
    for q in per[1:]:
        idx = idx.append(q)
    if not seg:
        kw["timeincrement"] = list(spec["inc"])
    kw.update(timeindex=idx, periods=per,
              use_remaining_value=bool(spec.get("use_remaining_value")))
    return kw


def labels(spec):
    """Time labels of the original time steps."""
    kw = arguments(spec)
    freq = pd.Timedelta(hours=spec.get("step", 1))
    out = []
    for p, d in enumerate(
            [kw["tsa_parameters"]] if isinstance(kw["tsa_parameters"], dict)
            else kw["tsa_parameters"]):
        start = kw["periods"][p][0] if spec.get("periods") else \
            kw["timeindex"][0]
        out += [start + n * freq for n in range(
            d["timesteps_per_period"] * len(d["order"]))]
    return out


def positions(spec):
    """Original time step at which every unfolded step begins."""
    out, now = [], 0
    seg = [{(k, s): n for k, s, n in a.get("segments") or []}
           for a in spec["tsa"]]
    for p, i, k, g, r in layout(spec):
        out.append(now)
        now += seg[p].get((k, g), 1)
    return out + [now]
