"""Run the real code and record what it did."""
import contextlib
import io
import logging
import os
import time
import warnings

from pyomo.environ import Var, value

from .common import CaseTimeout

logging.getLogger("pyomo").setLevel(logging.CRITICAL)
logging.getLogger().setLevel(logging.ERROR)


class Run:
    """What one execution of the real code showed."""

    status = None  # optimal / failed / error
    objective = None
    values = None
    error = None
    model = None
    results = None
    nodes = None
    solver = None


def read_values(m):
    out = {}
    for comp in m.component_objects(Var, active=True):
        name = comp.local_name
        for idx in comp:
            key = idx if isinstance(idx, tuple) else (idx,)
            v = comp[idx].value
            if v is None:
                continue
            out[(name,) + tuple(
                k if isinstance(k, int) else str(k) for k in key)] = v
    return out


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def solve(build, solver="glpk", **kw):
    """build() -> (model, nodes); returns a Run (never raises)."""
    r = Run()
    r.solver = solver
    with quiet():
        try:
            r.model, r.nodes = build()
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            r.status, r.error = "error", ("build", type(e).__name__, str(e))
            return r
        return run_model(r, solver, **kw)


LIMIT = {"glpk": "tmlim", "cbc": "sec"}
SECONDS = 10


def run_model(r, solver, **kw):
    if solver in LIMIT:
        kw.setdefault("cmdline_options", {LIMIT[solver]: SECONDS})
    t0 = time.time()
    try:
        r.results = r.model.solve(solver=solver, **kw)
    except CaseTimeout:
        raise
    except Exception as e:  # noqa: BLE001
        if time.time() - t0 > .9 * SECONDS:
            r.status, r.error = "timeout", ("solve", type(e).__name__, str(e))
            return r
        if crashed(e) and solver == "glpk":
            # a bug of glpk's presolver; the model goes to the other solver
            kw.pop("cmdline_options", None)
            r.solver = "cbc"
            return run_model(r, "cbc", **kw)
        return failed(r, e)
    r.status = "optimal"
    r.values = read_values(r.model)
    r.objective = value(r.model.objective)
    return r


def crashed(exc):
    return "did not exit normally" in str(exc)


def failed(r, exc):
    try:
        raise exc
    except RuntimeError as e:
        r.status, r.error = "failed", ("solve", "RuntimeError", str(e))
        return r
    except Exception as e:  # noqa: BLE001
        r.status, r.error = "error", ("solve", type(e).__name__, str(e))
        return r
    return r


def scratch():
    """Per-process temporary directory for solver files."""
    return os.environ.get("TMPDIR")
