"""The Results object: a faithful view of the solved model."""
import warnings

import pandas as pd

from .. import build, observe
from ..common import Outcome
from ..mixed import mixed

from ..ref import all_flows, at
from .base import no_idle_flows, solver_for
from . import c31

N = {"quick": 3000, "thorough": 24000}
TAGS = {"values", "labels", "keys", "variable_costs", "investment_costs"}
NEED = {"values": 5000, "labels": 3000, "keys": 800, "variable_costs": 500,
        "investment_costs": 150}
RULE = ("distinct solved systems whose Results object was compared entry by "
        "entry with the values of the model's variables")
PERIOD = {"invest", "total", "old", "old_end", "old_exo", "invest_status"}


def gen(rng, k):
    if rng.random() < .2:
        c = c31.gen(rng, k)
        c["features"] = ["multi-period"]
        return c
    g = mixed(rng)
    if g.chance(.2):
        g.spec["objw"] = [g.num(.5, 3) for _ in range(g.T)]
    no_idle_flows(g.spec)
    return {"spec": g.spec, "solver": solver_for(rng),
            "style": rng.randrange(10 ** 6), "features": sorted(set(g.feat))}


def run(c):
    out = Outcome()
    out.features = c["features"]
    s = c["spec"]
    r = observe.solve(lambda: build.build_model(s, c["style"]), c["solver"])
    out.kind = r.status
    if r.status == "timeout":
        out.inconclusive = "solver"
    if r.status == "error":
        out.bad("exception", r.error)
    if r.status != "optimal":
        return out
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        judge(s, r, out)
    return out


def judge(s, r, out):
    res, m = r.results, r.model
    T = len(s["inc"])
    index = list(m.es.timeindex)
    names = {}
    for (name, *key), x in r.values.items():
        names.setdefault(name, {})[tuple(key)] = x
    keys = set(res.keys())
    want = set(names) | {"objective", "variable_costs", "Problem", "Solver"}
    if "invest" in names:
        want.add("investment_costs")
    out.see("keys")
    if want - keys:
        out.bad("keys", f"missing keys {want - keys}")
    for key in sorted(keys, key=str):
        if key not in res:
            out.bad("keys", f"{key!r} in keys() but not in results")
        if res[key] is None:
            out.bad("keys", f"results[{key!r}] is None")
    if "no such key" in res or res.get("no such key") is not None or \
            res.get("no such key", 5) != 5:
        out.bad("keys", "unknown key accepted")
    try:
        res["no such key"]
    except KeyError:
        pass
    else:
        out.bad("keys", "no KeyError for an unknown key")
    if abs(res["objective"] - r.objective) > 1e-9 * (1 + abs(r.objective)):
        out.bad("values", f"objective {res['objective']} / {r.objective}")
    for name, vals in names.items():
        frame(name, vals, res.get(name), T, index, out, s)
        if len(out.problems) > 4:
            return
    df = res.to_df("flow")
    if not df.equals(res["flow"]) or not df.equals(res.get("flow")):
        out.bad("values", "to_df, [] and get differ")
    variable(s, r, res, out, T)
    if not s.get("periods"):
        invest(s, r, res, out)


def label(col):
    if isinstance(col, tuple):
        return tuple(str(c) if not isinstance(c, int) else c for c in col)
    return (str(col),)


def frame(name, vals, df, T, index, out, s):
    steps = sorted({k[-1] for k in vals if isinstance(k[-1], int)})
    if not steps:
        # one value per node (e.g. init_content)
        out.see("values", any(vals.values()), len(vals))
        flat = list(pd.Series(df.to_numpy().ravel()).dropna())
        if sorted(round(x, 9) for x in flat) != sorted(
                round(x, 9) for x in vals.values()):
            out.bad("values", f"{name}: {flat} / {vals}")
        return
    if name not in PERIOD and all(len(k) in (2, 3) for k in vals):
        if steps == list(range(T)):
            want = index[:T]
        elif steps == list(range(T + 1)) and len(index) == T + 1:
            want = index
        else:
            want = steps
    else:
        want = steps
    if all(len(k) in (2, 3) for k in vals):
        out.see("labels", want is not steps)
        if list(df.index) != list(want):
            out.bad("labels", f"{name}: index {list(df.index)}, expected "
                    f"{want}")
            return
        got = {}
        for col in df.columns:
            for t, x in zip(steps, df[col]):
                if not pd.isna(x):
                    got[label(col) + (t,)] = x
        out.see("values", any(vals.values()), len(vals))
        if set(got) != set(vals):
            out.bad("values", f"{name}: entries {sorted(map(str, set(got) ^ set(vals)))[:4]} "
                    "differ")
        for k in set(got) & set(vals):
            if abs(got[k] - vals[k]) > 1e-9 * (1 + abs(vals[k])):
                out.bad("values", f"{name}{k}: {got[k]} instead of "
                        f"{vals[k]}")
                return


def variable(s, r, res, out, T):
    df = res["variable_costs"]
    w = s.get("objw") or s["inc"]
    flows = all_flows(s)
    got = {label(c): list(df[c]) for c in df.columns}
    if set(got) != set(flows):
        out.bad("variable_costs", f"columns {set(got) ^ set(flows)}")
        return
    for (i, o), f in flows.items():
        c = f.get("variable_costs") or 0
        for t in range(T):
            want = r.values[("flow", i, o, t)] * at(c, t) * w[t]
            if abs(got[i, o][t] - want) > 1e-6 * (1 + abs(want)):
                out.bad("variable_costs", f"{i}->{o} t={t}: {got[i, o][t]} "
                        f"instead of {want} (power x costs x hours)")
                return
    out.see("variable_costs", any(w[t] != 1 for t in range(T)))


def invest(s, r, res, out):
    have = {}
    for (i, o), f in all_flows(s).items():
        if isinstance(f.get("nominal_capacity"), dict):
            have[i, o] = f["nominal_capacity"]["invest"]
    for n in s["nodes"]:
        if n["kind"] == "Storage" and isinstance(n["nominal_capacity"],
                                                 dict):
            have[n["label"],] = n["nominal_capacity"]["invest"]
    df = res.get("investment_costs")
    got = {label(c): float(df[c].iloc[0]) for c in df.columns}
    if set(got) != set(have):
        out.bad("investment_costs", f"columns {set(got) ^ set(have)}")
        return
    for key, inv in have.items():
        want = inv.get("ep_costs", 0) * r.values[("invest",) + key + (0,)]
        if inv.get("nonconvex"):
            want += inv.get("offset", 0) * round(
                r.values[("invest_status",) + key + (0,)])
        else:
            want += inv.get("offset", 0)
        out.see("investment_costs", abs(want) > 1e-9)
        if abs(got[key] - want) > 1e-5 * (1 + abs(want)):
            out.bad("investment_costs", f"{key}: {got[key]} instead of "
                    f"{want}")
