"""processing.results and views: the classic result dictionary."""
import logging
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from oemof import solph
from oemof.solph import processing, views

from .. import build, observe
from ..common import Outcome
from ..gen import extremes
from ..mixed import mixed
from .base import no_idle_flows, solver_for
from . import c31

logging.disable(logging.ERROR)
N = {"quick": 1400, "thorough": 12000}
TAGS = {"sequences", "scalars", "node view", "type view", "filter",
        "net storage flow", "period_scalars", "stored"}
NEED = {"sequences": 5500, "scalars": 200, "node view": 2800,
        "type view": 1000, "filter": 550, "net storage flow": 140,
        "period_scalars": 40, "stored": 80}
RULE = ("distinct solved systems whose result dictionary and views were "
        "compared entry by entry with the values of the model's variables")
PERIOD = {"invest", "total", "old", "old_end", "old_exo", "invest_status"}


def gen(rng, k):
    if rng.random() < .2:
        c = c31.gen(rng, k)
        c["features"] = ["multi-period"]
    else:
        g = mixed(rng)
        g.feat += extremes(rng, g.spec)
        no_idle_flows(g.spec)
        c = {"spec": g.spec, "solver": solver_for(rng),
             "style": rng.randrange(10 ** 6),
             "features": sorted(set(g.feat))}
    c["remove"] = rng.random() < .4
    c["stored"] = rng.random() < .15
    return c


def run(c):
    out = Outcome()
    out.features = c["features"]
    s = c["spec"]
    r = observe.solve(lambda: build.build_model(s, c["style"]), c["solver"])
    out.kind = r.status
    if r.status == "timeout":
        out.inconclusive = "solver"
    if r.status == "error":
        out.bad("exception", r.error)
    if r.status != "optimal":
        return out
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = processing.results(r.model, remove_last_time_point=c["remove"])
        want = expected(s, r)
        data(c, s, r, res, want, out)
        if not out.problems:
            # results() may be called repeatedly
            again = processing.results(r.model,
                                       remove_last_time_point=c["remove"])
            if set(again) != set(res) or any(
                    not again[k]["sequences"].equals(res[k]["sequences"])
                    for k in res):
                out.bad("sequences", "second extraction differs")
            look(s, r, res, want, out)
        if not out.problems and c.get("stored"):
            stored(s, r, res, out)
    return out


def stored(s, r, res, out):
    """results kept with the system in a file are read back as they were"""
    es = r.model.es
    es.results["main"] = res
    es.results["meta"] = processing.meta_results(r.model)
    d = tempfile.mkdtemp(dir=observe.scratch())
    path = os.path.join(d, "system.oemof")
    try:
        es.dump(filename=path, consider_dpath=False)
        new = solph.EnergySystem.from_file(path)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out.see("stored", True)
    a, b = (processing.convert_keys_to_strings(x.results["main"])
            for x in (es, new))
    if set(a) != set(b):
        out.bad("stored", f"keys {set(a) ^ set(b)}")
        return
    for k in a:
        for part in a[k]:
            if not a[k][part].equals(b[k][part]) or \
                    list(a[k][part].index) != list(b[k][part].index):
                out.bad("stored", f"{k} {part}: {a[k][part]} was read as "
                        f"{b[k][part]}")
                return
    if new.results["meta"]["objective"] != es.results["meta"]["objective"]:
        out.bad("stored", "objective")
    for lab in {x for k in a for x in k} - {"None"}:
        v, w = (views.node(x.results["main"], lab) for x in (es, new))
        if set(v) != set(w) or any(not v[x].equals(w[x]) for x in v):
            out.bad("stored", f"view of {lab} differs")


def expected(s, r):
    """{(from, to): {"seq": {name: {t: x}}, "per": {name: {p: x}}}}, built
    from the variables by label"""
    want = {}
    for (name, *key), x in r.values.items():
        key = list(key)
        t = key.pop() if isinstance(key[-1], int) else None
        if not key or any(isinstance(k, int) for k in key) or len(key) > 2:
            continue
        where = (key[0], key[1] if len(key) == 2 else "None")
        kind = "per" if name in PERIOD or t is None else "seq"
        want.setdefault(where, {"seq": {}, "per": {}})[kind].setdefault(
            name, {})[t or 0] = x
    return want


def lab(k):
    return tuple(str(x) for x in k)


def same(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def data(c, s, r, res, want, out):
    T = len(s["inc"])
    index = list(r.model.es.timeindex)
    multi = bool(s.get("periods"))
    got = {lab(k): v for k, v in res.items()}
    if set(got) != set(want):
        out.bad("sequences", f"keys {set(got) ^ set(want)}")
        return
    rows = index[:-1] if c["remove"] else index
    for k, w in want.items():
        seq = got[k]["sequences"]
        if not w["seq"]:
            if list(seq.columns):
                out.bad("sequences", f"{k}: unexpected {list(seq.columns)}")
            continue
        if set(seq.columns) != set(w["seq"]):
            out.bad("sequences", f"{k}: columns {list(seq.columns)}, "
                    f"expected {sorted(w['seq'])}")
            continue
        if multi and len(index) == T:
            rows = index
        if list(seq.index) != rows:
            out.bad("sequences", f"{k}: index {list(seq.index)}, expected "
                    f"{rows}")
            continue
        for name, vals in w["seq"].items():
            col = list(seq[name])
            for t, x in enumerate(col):
                y = vals.get(t)
                if y is None and (t < T or not pd.isna(x)) and not (
                        pd.isna(x)):
                    out.bad("sequences", f"{k} {name} t={t}: {x}, no value")
                elif y is not None and (pd.isna(x) or not same(x, y)):
                    out.bad("sequences", f"{k} {name} t={t}: {x} instead of "
                            f"{y}")
            out.see("sequences", any(vals.values()))
        if len(out.problems) > 5:
            return
    for k, w in want.items():
        if multi:
            per = got[k]["period_scalars"]
            if set(per.columns) != set(w["per"]):
                out.bad("period_scalars", f"{k}: {list(per.columns)} instead "
                        f"of {sorted(w['per'])}")
                continue
            for name, vals in w["per"].items():
                x = dict(per[name])
                y = {s["periods"]["years"][p]: v for p, v in vals.items()}
                out.see("period_scalars", any(vals.values()))
                if set(x) != set(y) or any(not same(x[a], y[a]) for a in y):
                    out.bad("period_scalars", f"{k} {name}: {x} instead of "
                            f"{y}")
        else:
            sca = dict(got[k]["scalars"])
            y = {n: v[0] for n, v in w["per"].items()}
            out.see("scalars", any(y.values()))
            if set(sca) != set(y) or any(not same(sca[a], y[a]) for a in y):
                out.bad("scalars", f"{k}: {sca} instead of {y}")
        if len(out.problems) > 5:
            return


def look(s, r, res, want, out):
    nodes = list(r.nodes.values())
    sc = "period_scalars" if s.get("periods") else "scalars"
    text = views.convert_keys_to_strings(res)
    none = views.convert_keys_to_strings(res, keep_none_type=True)
    if set(text) != {lab(k) for k in res} or set(none) != {
            tuple(None if x is None else str(x) for x in k) for k in res}:
        out.bad("node view", "convert_keys_to_strings lost or added keys")
        return
    for n in nodes:
        mine = {k for k in res if n in k}
        variants = [(n, False, False), (str(n.label), False, False)]
        variants += [(str(n.label), True, False), (n, True, False),
                     (str(n.label), False, True), (n, False, True)]
        for node, multi, keep in variants:
            if keep and sc == "period_scalars":
                continue
            v = views.node(res, node, multiindex=multi, keep_none_type=keep)
            check_node(res, mine, node, v, multi, keep, out, sc)
        if len(out.problems) > 5:
            return
    froms = {k[0] for k in res} - {None}
    tos = {k[1] for k in res} - {None}
    for opt, w in (("All", froms | tos), ("HasOutputs", froms),
                   ("HasInputs", tos), ("HasOnlyOutputs", froms - tos),
                   ("HasOnlyInputs", tos - froms)):
        for ex in (False, True):
            have = views.filter_nodes(res, getattr(views.NodeOption, opt),
                                      exclude_busses=ex)
            w2 = {n for n in w if not (ex and isinstance(n, solph.Bus))}
            out.see("filter", bool(w2))
            if set(have) != w2:
                out.bad("filter", f"{opt} {ex}: {set(have) ^ w2}")
    names = [str(n.label) for n in nodes]
    known = froms | tos
    have = views.get_node_by_name(res, *(names + ["nobody"]))
    w = [n if n in known else None for n in nodes] + [None]
    if len(have) != len(w) or any(a is not b for a, b in zip(have, w)):
        out.bad("filter", "get_node_by_name")
    if views.get_node_by_name(res, names[0]) is not w[0] or \
            views.get_node_by_name(res, "nobody") is not None:
        out.bad("filter", "get_node_by_name with one name")
    for typ in {type(n) for n in nodes} | {solph.components.GenericStorage}:
        for name, fn, sel in (
                ("input", views.node_input_by_type,
                 lambda k: isinstance(k[1], typ)),
                ("output", views.node_output_by_type,
                 lambda k: isinstance(k[0], typ) and k[1] is not None),
                ("weight", views.node_weight_by_type,
                 lambda k: isinstance(k[0], typ) and k[1] is None)):
            w = {k: res[k]["sequences"] for k in res if sel(k)}
            df = fn(res, typ)
            out.see("type view", bool(w))
            if not w:
                if df is not None:
                    out.bad("type view", f"{name} {typ}: not None")
                continue
            cols = [(k[0], k[1], c) if name != "weight" else (k[0], c)
                    for k, f in w.items() for c in f.columns]
            if sorted(map(str, df.columns)) != sorted(map(str, cols)):
                out.bad("type view", f"{name} {typ}: {list(df.columns)} / "
                        f"{cols}")
                continue
            for k, f in w.items():
                for c in f.columns:
                    col = (k[0], k[1], c) if name != "weight" else (k[0], c)
                    if not eq(df[col], f[c]):
                        out.bad("type view", f"{name} {col}")
    net(s, r, res, want, out)


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    n = min(len(a), len(b))
    return np.allclose(a[:n], b[:n], equal_nan=True) and not (
        np.isfinite(a[n:]).any() or np.isfinite(b[n:]).any())


def check_node(res, mine, node, v, multi, keep, out, sc):
    string = isinstance(node, str)

    def conv(x):
        if not string:
            return x
        return None if x is None and keep else str(x)

    seq, per = {}, {}
    for k in mine:
        kk = (conv(k[0]), conv(k[1]))
        for c in res[k]["sequences"].columns:
            seq[kk, c] = res[k]["sequences"][c]
        if sc == "scalars":
            for c, x in res[k]["scalars"].items():
                per[kk, c] = x
    out.see("node view", bool(seq))
    if bool(seq) != ("sequences" in v):
        out.bad("node view", f"{node}: {list(v)}")
        return
    if seq:
        df = v["sequences"]
        cols = [((c[0], c[1]), c[2]) if multi else (c[0], c[1])
                for c in df.columns]
        cols = [(tuple(None if multi and pd.isna(x) else x
                       for x in a), b) for a, b in cols]
        if len(cols) != len(seq) or set(cols) != set(seq):
            out.bad("node view", f"{node} multi={multi} keep={keep}: {cols} "
                    f"instead of {list(seq)}")
            return
        for j, c in enumerate(cols):
            if not eq(df.iloc[:, j], seq[c]):
                out.bad("node view", f"{node} {c}: values differ")
    if sc == "scalars":
        if bool(per) != (sc in v):
            out.bad("node view", f"{node}: scalars {list(v)}")
            return
        if per:
            ser = v[sc]
            idx = [((c[0], c[1]), c[2]) if multi else (c[0], c[1])
                   for c in ser.index]
            idx = [(tuple(None if multi and pd.isna(x) else x for x in a), b)
                   for a, b in idx]
            got = dict(zip(idx, ser.values))
            if set(got) != set(per) or len(idx) != len(per) or any(
                    not same(got[k], per[k]) for k in per):
                out.bad("node view", f"{node} multi={multi}: {got} instead "
                        f"of {per}")


def net(s, r, res, want, out):
    stores = [n for n in s["nodes"] if n["kind"] == "Storage"]
    df = views.net_storage_flow(res, solph.components.GenericStorage)
    if not stores:
        if df is not None:
            out.bad("net storage flow", "result without any storage")
        return
    T = len(s["inc"])
    got = {str(c[0]): df.iloc[:, j] for j, c in enumerate(df.columns)}
    for n in stores:
        lab_ = n["label"]
        if lab_ not in got:
            out.bad("net storage flow", f"{lab_} missing in "
                    f"{list(df.columns)}")
            continue
        out.see("net storage flow")
        for t in range(min(T, len(df))):
            y = sum(r.values["flow", lab_, b, t] for b in n["outputs"]) - sum(
                r.values["flow", b, lab_, t] for b in n["inputs"])
            x = got[lab_].iloc[t]
            if abs(x - y) > 1e-9 * (1 + abs(y)):
                out.bad("net storage flow", f"{lab_} t={t}: {x} instead of "
                        f"{y}")
                return
