"""What Model.solve reports: only proven optima are presented as results.

Histories of solves on one model, with a recording stand-in for the solver
that injects every combination of status and termination condition.
"""
import random
import warnings

from pyomo import environ as po
from pyomo.opt import (SolverFactory, SolverResults, SolverStatus,
                       TerminationCondition)

from oemof import solph

from .. import build, compare, observe
from ..common import Outcome
from ..mixed import mixed
from ..ref import Ref
from .base import no_idle_flows

N = {"quick": 7500, "thorough": 60000}
TAGS = {"accepted", "refused", "tolerated", "options", "history", "relax",
        "manual", "timeincrement", "crash"}
NEED = {"accepted": 900, "refused": 600, "tolerated": 400, "options": 900,
        "history": 300, "relax": 150, "manual": 120, "timeincrement": 100,
        "crash": 60}
RULE = ("distinct systems and solve histories in which the outcome reported "
        "by Model.solve was compared with what the solver (real or injected) "
        "answered")
CONDITIONS = ["optimal", "infeasible", "unbounded", "maxTimeLimit",
              "maxIterations", "feasible", "locallyOptimal",
              "globallyOptimal", "infeasibleOrUnbounded", "other", "unknown",
              "error", "noSolution", "licensingProblems", "userInterrupt"]
STATES = ["ok", "warning", "error", "aborted", "unknown"]
LOG = []
PLAN = {}


class SolverCrash(Exception):
    pass


class Recorder:
    """Stand-in solver: records the call, answers as planned."""

    def __init__(self, **kw):
        self.options = {}
        self.kw = kw

    def available(self, exception_flag=False):
        return True

    def solve(self, model, **kw):
        LOG.append({"new": dict(self.kw), "options": dict(self.options),
                    "solve": dict(kw), "model": model})
        if PLAN["crash"]:
            raise SolverCrash("the solver died")
        r = SolverFactory("glpk").solve(model)
        if PLAN["status"] is None:
            return r
        res = SolverResults()
        res.solver.status = SolverStatus(PLAN["status"])
        res.solver.termination_condition = TerminationCondition(
            PLAN["condition"])
        res.problem.lower_bound = r.problem.lower_bound
        res.problem.upper_bound = r.problem.upper_bound
        return res


SolverFactory.register("vf_recorder", doc="monitor")(Recorder)


def gen(rng, k):
    g = mixed(rng, tmax=3, n=rng.randint(1, 3))
    no_idle_flows(g.spec)
    return {"spec": g.spec, "features": sorted(set(g.feat)),
            "what": rng.choice(["inject"] * 3 + ["real", "history", "relax",
                                                 "manual", "timeincrement"]),
            "style": rng.randrange(10 ** 6), "rng": rng.randrange(10 ** 9)}


def run(c):
    out = Outcome()
    out.features = [c["what"]]
    with observe.quiet():
        globals()["check_" + c["what"]](c, random.Random(c["rng"]), out)
    out.kind = c["what"]
    return out


def call(m, **kw):
    """-> (kind, returned/exception, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = m.solve(**kw)
            kind = "results" if isinstance(r, solph.Results) else "raw"
        except RuntimeError as e:
            kind, r = "RuntimeError", e
        except SolverCrash as e:
            kind, r = "crash", e
    told = [str(x.message) for x in w if issubclass(x.category, UserWarning)
            and "optimal solution" in str(x.message)]
    return kind, r, told


def judge(m, status, cond, allow, got, out):
    kind, r, told = got
    if status == "ok" and cond == "optimal":
        out.see("accepted")
        if kind != "results" or told:
            out.bad("accepted", f"optimum was answered with {kind} {r} {told}")
    elif allow:
        out.see("tolerated")
        if kind != "raw" or not told:
            out.bad("tolerated", f"{status}/{cond}: {kind} {r} "
                    f"warnings={told}")
        elif cond not in told[0] or status not in told[0]:
            out.bad("tolerated", f"{status}/{cond} not named: {told}")
        elif r is not m.solver_results:
            out.bad("tolerated", "returned object is not the solver's answer")
    else:
        out.see("refused")
        if kind != "RuntimeError":
            out.bad("refused", f"{status}/{cond} was answered with {kind}")
        elif cond not in str(r) or status not in str(r):
            out.bad("refused", f"{status}/{cond} not named: {r}")
    if m.es.results is not m.solver_results or m.solver_results is None:
        out.bad("options", "solver answer is not kept with the model")
    elif kind != "results" and (
            str(m.solver_results.Solver.Status) != status):
        out.bad("options", "kept solver answer has another status")


def check_inject(c, rng, out):
    m, nodes = build.build_model(c["spec"], c["style"])
    truth = observe.solve(lambda: build.build_model(c["spec"], c["style"]),
                          "glpk")
    if truth.status != "optimal":
        return
    for _ in range(rng.randint(2, 5)):
        PLAN.update(crash=rng.random() < .08, status=rng.choice(STATES),
                    condition=rng.choice(CONDITIONS))
        if rng.random() < .35:
            PLAN.update(status="ok", condition="optimal")
        allow = rng.random() < .5
        opts = {f"o{i}": rng.choice(["", 1, 2.5, "x"])
                for i in range(rng.randint(0, 3))}
        kws = rng.choice([{}, {"tee": False}, {"keepfiles": True, "tee": 1}])
        kw = {"solver": "vf_recorder", "allow_nonoptimal": allow}
        o2, k2 = dict(opts), dict(kws)
        if opts or rng.random() < .3:
            kw["cmdline_options"] = o2
        if kws or rng.random() < .3:
            kw["solve_kwargs"] = k2
        io = rng.choice([None, "lp", "nl"])
        if io:
            kw["solver_io"] = io
        LOG.clear()
        before = m.solver_results
        got = call(m, **kw)
        out.see("options")
        if len(LOG) != 1 or LOG[0]["model"] is not m:
            out.bad("options", f"{len(LOG)} solver calls")
            return
        if LOG[0]["options"] != opts or LOG[0]["solve"] != kws or \
                LOG[0]["new"] != {"solver_io": io or "lp"}:
            out.bad("options", f"{opts} {kws} {io} reached the solver as "
                    f"{ {k: v for k, v in LOG[0].items() if k != 'model'} }")
        if o2 != opts or k2 != kws:
            out.bad("options", "arguments of the caller were changed")
        if PLAN["crash"]:
            out.see("crash")
            if got[0] != "crash":
                out.bad("crash", f"crash of the solver became {got}")
            if m.solver_results is not before:
                out.bad("crash", "results changed by a crashed run")
            continue
        judge(m, PLAN["status"], PLAN["condition"], allow, got, out)
        if got[0] == "results" and abs(
                got[1]["objective"] - truth.objective) > 1e-5 * (
                1 + abs(truth.objective)):
            out.bad("accepted", "objective differs")


def spoil(m, nodes, c, rng):
    """adds something that makes the model infeasible or unbounded"""
    f = rng.choice([k for k in m.flows])
    m.spoil = po.Block()
    if rng.random() < .6:
        t = rng.randrange(len(c["spec"]["inc"]))
        m.spoil.a = po.Constraint(expr=m.flow[f[0], f[1], t] >= 3)
        m.spoil.b = po.Constraint(expr=m.flow[f[0], f[1], t] <= 2)
        return "infeasible"
    m.spoil.x = po.Var(bounds=(0, None))
    m.spoil.y = po.Var(bounds=(0, None))
    m.spoil.c = po.Constraint(expr=m.spoil.x <= m.spoil.y)
    m.objective.expr = m.objective.expr - 5 * m.spoil.x
    return "unbounded"


def check_real(c, rng, out):
    solver = rng.choice(["glpk", "glpk", "cbc"])
    m, nodes = build.build_model(c["spec"], c["style"])
    first = call(m, solver=solver, allow_nonoptimal=False)
    if first[0] != "results":
        st = Ref(c["spec"]).lp.solve()[0]
        if st == "optimal":
            # a refused optimum, if another solver and model confirm it
            m, nodes = build.build_model(c["spec"], c["style"])
            other = "cbc" if solver == "glpk" else "glpk"
            again = call(m, solver=other, allow_nonoptimal=False)
            if again[0] != "results" and compare._robustly_feasible(
                    Ref(c["spec"])):
                out.bad("accepted", f"an optimum exists: {first}, {again}")
            else:
                out.inconclusive = "borderline"
        elif st == "infeasible":
            out.see("refused")
        return
    out.see("accepted")
    kind = spoil(m, nodes, c, rng)
    for allow in rng.sample([True, False], 2):
        got = call(m, solver=solver, allow_nonoptimal=allow)
        out.see("tolerated" if allow else "refused")
        if got[0] != ("raw" if allow else "RuntimeError"):
            out.bad("refused", f"{kind} model ({solver}, allow={allow}) was "
                    f"answered with {got}")
        elif allow and not got[2]:
            out.bad("tolerated", "no warning")


def check_history(c, rng, out):
    """one model: solved, spoiled, repaired, changed, solved again"""
    truth = observe.solve(lambda: build.build_model(c["spec"], c["style"]),
                          "glpk")
    if truth.status != "optimal":
        return
    m, nodes = build.build_model(c["spec"], c["style"])
    for step in range(rng.randint(2, 4)):
        solver = rng.choice(["glpk", "glpk", "cbc"])
        bad = rng.random() < .5
        if bad:
            f = rng.choice([k for k in m.flows])
            m.spoil = po.Block()
            m.spoil.a = po.Constraint(expr=m.flow[f[0], f[1], 0] >= 3)
            m.spoil.b = po.Constraint(expr=m.flow[f[0], f[1], 0] <= 2)
        got = call(m, solver=solver)
        out.see("history")
        if bad:
            m.del_component(m.spoil)
            if got[0] != "RuntimeError":
                out.bad("history", f"step {step}: spoiled model gave {got}")
        elif got[0] != "results":
            out.bad("history", f"step {step}: feasible model gave {got}")
        else:
            x = got[1]["objective"]
            if abs(x - truth.objective) > 1e-4 + 1e-6 * abs(truth.objective):
                out.bad("history", f"step {step}: {x} instead of "
                        f"{truth.objective}")
            if abs(solph.processing.meta_results(m)["objective"] - x) > 1e-6:
                out.bad("history", "meta results of another run")


def check_relax(c, rng, out):
    ref = Ref(c["spec"])
    st, obj, x = ref.lp.solve(integrality=False)
    if st != "optimal":
        return
    m, nodes = build.build_model(c["spec"], c["style"])
    ints = sum(not v.is_continuous()
               for v in m.component_data_objects(po.Var))
    if m.relax_problem() is not m:
        out.bad("relax", "relax_problem does not return the model")
    left = [v.name for v in m.component_data_objects(po.Var)
            if not v.is_continuous()]
    if left:
        out.bad("relax", f"still discrete: {left[:4]}")
    got = call(m, solver=rng.choice(["glpk", "cbc"]))
    out.see("relax", ints > 0)
    if got[0] != "results":
        out.bad("relax", f"relaxation gave {got}")
        return
    # the relaxation may be tighter or looser than the reference one, but
    # never worse than the integer optimum and never below the linear part
    st, full, x = ref.lp.solve()
    val = got[1]["objective"]
    tol = 1e-4 + 1e-6 * abs(val)
    if st == "optimal" and val > full + tol:
        out.bad("relax", f"relaxed optimum {val} is worse than the integer "
                f"optimum {full}")
    if not ints and abs(val - obj) > tol:
        out.bad("relax", f"{val}, reference {obj}")


STEPS = ("_add_parent_block_sets", "_add_parent_block_variables",
         "_add_child_blocks", "_add_objective")


def check_manual(c, rng, out):
    """step by step construction yields the same model"""
    a = observe.solve(lambda: build.build_model(c["spec"], c["style"]),
                      "glpk")
    if a.status != "optimal":
        return
    if not all(hasattr(solph.Model, x) for x in STEPS):
        out.see("manual")  # not part of the public interface
        return
    es, nodes = build.build_es(c["spec"], c["style"])
    kw = {}
    if c["spec"].get("objw") is not None:
        kw["objective_weighting"] = c["spec"]["objw"]
    m = solph.Model(es, auto_construct=False, **kw)
    if list(m.component_objects(po.Var)) or hasattr(m, "objective"):
        out.bad("manual", "constructed although auto_construct is off")
    m._add_parent_block_sets()
    m._add_parent_block_variables()
    m._add_child_blocks()
    m._add_objective()
    if rng.random() < .5:
        m._add_objective(update=True)
    got = call(m, solver="glpk")
    out.see("manual")
    if got[0] != "results" or abs(got[1]["objective"] - a.objective) > 1e-4 \
            + 1e-6 * abs(a.objective):
        out.bad("manual", f"{got}, automatic {a.objective}")


def check_timeincrement(c, rng, out):
    """interval lengths given to the model replace those of the system"""
    s = c["spec"]
    inc = [rng.choice([.25, .5, 1.0, 2.0, 3.0]) for _ in s["inc"]]
    want = observe.solve(lambda: build.build_model(
        dict(s, inc=inc, index="increment"), c["style"]), "glpk")
    got = observe.solve(lambda: with_increment(s, c["style"], inc), "glpk")
    out.see("timeincrement", want.status == "optimal" and inc != s["inc"])
    if want.status != got.status:
        out.bad("timeincrement", f"{want.status}, {got.status} {got.error}")
    elif want.status == "optimal" and abs(
            want.objective - got.objective) > 1e-4 + 1e-6 * abs(
            want.objective):
        out.bad("timeincrement", f"{s['inc']}->{inc}: {got.objective}, "
                f"expected {want.objective}")


def with_increment(s, style, inc):
    es, nodes = build.build_es(s, style)
    return solph.Model(es, timeincrement=list(inc)), nodes


def idle():
    """A flow no constraint and no costs mention."""
    import pandas as pd
    with observe.quiet():
        es = solph.EnergySystem(
            timeindex=pd.date_range("2020", periods=3, freq="h"),
            infer_last_interval=False)
        b, b2 = solph.Bus(label="b", balanced=False), solph.Bus(label="b2")
        es.add(b, b2, solph.components.Source(
            label="s", outputs={b: solph.Flow(nominal_capacity=3)}),
            solph.components.Source(label="s2", outputs={
                b2: solph.Flow(nominal_capacity=3, variable_costs=1)}),
            solph.components.Sink(label="d", inputs={
                b2: solph.Flow(nominal_capacity=1, fix=[1, 2])}))
        try:
            r = solph.Model(es).solve("glpk")
        except ValueError as e:
            return str(e)
    return None if abs(r["objective"] - 3) < 1e-6 else str(r["objective"])


PROBES = [("idle-flow", idle)]
