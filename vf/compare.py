"""The oracle: one real execution against the reference semantics."""
from . import build, observe
from .ref import Ref

TOL = 2e-6


def close(a, b, scale=1.0, tol=TOL):
    return abs(a - b) <= 2e-5 + tol * max(abs(a), abs(b), scale)


class Verdict:
    def __init__(self):
        self.problems = []  # (kind, text)
        self.kind = None  # outcome class observed
        self.counts = {}  # tag -> [evaluated, tight]
        self.inconclusive = None
        self.run = None
        self.ref = None
        self.tight = None

    def bad(self, kind, text):
        self.problems.append((kind, text))


def check(spec, solver="glpk", style=None, order=None, second="cbc",
          refkw=None, es_kwargs=None, strict=None, **kw):
    """Full comparison; a mismatch is confirmed with a second solver.

    refkw configures the reference every run has to satisfy, strict (if the
    documentation leaves something open) the tightest admissible reading.
    """
    a = (style, order, refkw or {}, es_kwargs, strict, kw)
    v = _check(spec, solver, *a)
    _certify(v)
    timeout = v.inconclusive == "time limit of the solver"
    if (v.problems or timeout) and second and second != solver:
        w = _check(spec, second, *a)
        if timeout:
            _certify(w)
            if w.problems:
                w.problems = []
                w.inconclusive = "mismatch seen with one solver only"
            return w
        if not w.problems:
            # the confirmed run is the one to be observed further
            w.inconclusive = f"{solver} and {second} disagree: {v.problems[0]}"
            return w
    return v


def _check(spec, solver, style, order, refkw, es_kwargs, strict, kw):
    v = Verdict()
    ref = v.ref = Ref(spec, **refkw)
    st, obj, x = ref.lp.solve()
    tight, st_t, obj_t = ref, st, obj
    if strict is not None:
        tight = Ref(spec, **strict)
        st_t, obj_t, _ = tight.lp.solve()
        if st_t == "unknown":
            st = "unknown"
    v.tight = tight
    run = v.run = observe.solve(
        lambda: build.build_model(spec, style, order, es_kwargs), solver,
        **kw)
    if st == "unknown":
        v.inconclusive = "reference solver gave no answer"
        return v
    if run.status == "timeout":
        v.inconclusive = "time limit of the solver"
        return v
    if run.status == "error":
        txt = " ".join(run.error)
        if st_t == "infeasible" and "nfeasible" in txt:
            v.kind = "infeasible"
            return v
        v.kind = "error"
        v.bad("exception", f"reference: {st}; real code raised {run.error}")
        return v
    if run.status == "failed":
        v.kind = st_t
        if st_t == "optimal":
            # tolerate only borderline feasibility
            if not _robustly_feasible(tight):
                v.inconclusive = "borderline feasibility"
                return v
            v.bad("rejected", "reference optimum exists (%.6g) but the run "
                  "failed: %s" % (obj_t, run.error[2][-120:]))
        return v
    v.kind = "optimal"
    if st == "infeasible":
        if ref.lp.solve(relax=1e-6)[0] == "optimal":
            v.inconclusive = "borderline feasibility"
            return v
        v.bad("accepted", "no trajectory satisfies the specification, but "
              "the run reports an optimum %.6g" % run.objective)
        viol, v.counts = ref.lp.residuals(run.values)
        for r in viol[:3]:
            v.bad("row", f"{r}")
        return v
    if st == "unbounded":
        v.bad("bounded", "specification is unbounded, but the run reports "
              "an optimum %.6g" % run.objective)
        return v
    viol, v.counts = ref.lp.residuals(run.values)
    for r in viol[:4]:
        v.bad("row", "%s %s: value %.8g outside [%.8g, %.8g]" % r)
    parts, missing = ref.lp.evaluate_cost(run.values)
    if not missing:
        tot = sum(parts.values())
        sc = sum(abs(p) for p in parts.values())
        if not close(tot, run.objective, sc):
            v.bad("accounting", "costs recomputed from the trajectory %.8g "
                  "%s, reported objective %.8g" % (tot, parts,
                                                   run.objective))
    big = max(map(abs, parts.values()), default=1)
    if run.objective < obj and not close(obj, run.objective, big):
        v.bad("optimum", "reported %.8g, specification has %.8g (too good: a "
              "limit is missing)" % (run.objective, obj))
    if st_t == "optimal" and run.objective > obj_t and not close(
            obj_t, run.objective, big):
        v.bad("optimum", "reported %.8g, specification has %.8g (too bad: "
              "over-constrained)" % (run.objective, obj_t))
    return v


def _certify(v):
    """Do not trust the optimum of the reference blindly: claims built on it
    need a certificate."""
    kinds = {k for k, _ in v.problems}
    if kinds == {"bounded"}:
        if any(v.ref.lp.solve(presolve=p)[0] != "unbounded"
               for p in (True, False)):
            v.inconclusive = "boundedness of the reference is unclear"
            v.problems = []
        return
    if not kinds & {"optimum", "accepted", "rejected"} or kinds - {
            "optimum", "accepted", "rejected"}:
        return
    texts = " ".join(t for _, t in v.problems)
    if "too bad" in texts or "rejected" in kinds:
        # the reference solution must really satisfy the specification
        lp = v.tight.lp
        st, obj, x = lp.solve()
        if st != "optimal" or lp.residuals(x)[0]:
            v.inconclusive = "reference solution is not feasible"
            v.problems = []
    elif "too good" in texts or "accepted" in kinds:
        # the observed trajectory satisfies every row of the specification
        # and every variable of it was observed: it cannot be too good
        if all(n in v.run.values for n in v.ref.lp.names) and \
                not v.ref.lp.residuals(v.run.values)[0]:
            v.inconclusive = "reference optimum is not optimal"
            v.problems = []


def _robustly_feasible(ref):
    """Still feasible when every inequality is tightened a little?"""
    lp = ref.lp
    rows = lp.rows
    eps = 1e-6
    lp.rows = [(a, b, c, lo + eps if lo < hi else lo,
                hi - eps if lo < hi else hi) for a, b, c, lo, hi in rows]
    try:
        return lp.solve()[0] == "optimal"
    finally:
        lp.rows = rows
