"""Runner: seeded cases over all cores, verdict, evidence, replay files."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class CaseTimeout(Exception):
    pass


class Outcome:
    """Result of one monitored execution (picklable)."""

    def __init__(self):
        self.problems = []  # [(kind, text)]
        self.inconclusive = None
        self.kind = "ok"  # outcome class
        self.counts = {}  # monitor -> [evaluated, nontrivial]
        self.events = 0  # observed events (rows, calls, values)
        self.features = []  # feature labels of the workload
        self.harness = None
        self.info = None
        self.sample = None

    def bad(self, kind, text):
        self.problems.append((kind, str(text)[:600]))

    def see(self, monitor, nontrivial=True, n=1):
        c = self.counts.setdefault(monitor, [0, 0])
        c[0] += n
        if nontrivial:
            c[1] += n


def from_verdict(v, out=None):
    out = out or Outcome()
    out.problems += [(a, str(b)[:600]) for a, b in v.problems]
    out.inconclusive = out.inconclusive or v.inconclusive
    out.kind = v.kind or "none"
    for tag, (n, k) in v.counts.items():
        c = out.counts.setdefault(tag, [0, 0])
        c[0] += n
        c[1] += k
    return out


def case_rng(pid, seed, k):
    return random.Random(f"{pid}:{seed}:{k}")


def _alarm(signum, frame):
    raise CaseTimeout()


def from_real_code(exc):
    """Did the exception originate in (or pass through) the code under
    test?"""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, case, limit=90):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        out = mod.run(case)
    except CaseTimeout:
        out = Outcome()
        out.inconclusive = "time limit of the case"
    except Exception as e:  # noqa: BLE001
        out = Outcome()
        txt = traceback.format_exc()[-1500:]
        if "did not exit normally" in str(e):
            out.inconclusive = "the solver crashed"
        elif from_real_code(e):
            out.bad("exception", f"{type(e).__name__}: {e} | {txt[-400:]}")
        else:
            out.harness = txt
    finally:
        signal.alarm(0)
    return out


_CTX = {}


def _init(mod, seed, scratch, pid):
    d = tempfile.mkdtemp(dir=scratch)
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d
    _CTX.update(mod=mod, seed=seed, pid=pid)
    null = os.open(os.devnull, os.O_WRONLY)  # solver chatter
    os.dup2(null, 1)
    try:
        from pyomo.common.tempfiles import TempfileManager
        TempfileManager.tempdir = d
    except Exception:  # noqa: BLE001
        pass


def _work(k):
    mod, seed, pid = _CTX["mod"], _CTX["seed"], _CTX["pid"]
    try:
        case = mod.gen(case_rng(pid, seed, k), k)
    except Exception:  # noqa: BLE001
        o = Outcome()
        o.harness = "generator: " + traceback.format_exc()[-1500:]
        return k, None, o
    o = run_case(mod, case, getattr(mod, "CASE_LIMIT", 90))
    h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str)
                     .encode()).hexdigest()[:12]
    if k < 40 and any(b for a, b in o.counts.values()):
        o.sample = json.dumps({"seed": seed, "k": k, "outcome": o.kind,
                               "case": case}, default=str)[:1500]
    return k, h, o


def _probe(i):
    mod = _CTX["mod"]
    name, fn = mod.PROBES[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(120)
    try:
        return name, fn(), None
    except CaseTimeout:
        return name, None, "time limit"
    except Exception as e:  # noqa: BLE001
        if from_real_code(e):
            return name, f"{type(e).__name__}: {e}", None
        return name, None, traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {(e["property"], e["probe"]): e["what"]
            for e in data.get("findings", [])}


def write_replay(pid, payload):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str)
                     .encode()).hexdigest()[:8]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def main(mod, pid, tier, seed):
    t0 = time.time()
    n = mod.N[tier]
    cap = {"quick": 420, "thorough": 840}[tier]
    cap = float(os.environ.get("VF_CAP", cap))
    seeds = getattr(mod, "SEEDS", {"quick": [0, 1], "thorough": [0, 1, 2]})
    sub = [seed * 1000 + s for s in seeds[tier]]
    procs = int(os.environ.get("VF_PROCS", min(8, os.cpu_count() or 1)))
    scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    viol, incon, harness = [], [], []
    kinds, counts, feats, distinct = {}, {}, {}, set()
    done = 0
    events = 0
    probes = getattr(mod, "PROBES", [])
    probe_seen = []
    listed = known_findings()
    capped = False
    infos = {}
    samples = []
    try:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs, initializer=_init,
                      initargs=(mod, sub[0], scratch, pid)) as pool:
            for name, bad, err in pool.imap_unordered(_probe,
                                                      range(len(probes))):
                probe_seen.append(name)
                if err:
                    harness.append(f"probe {name}: {err}")
                elif bad is None:
                    continue
                elif (pid, name) in listed:
                    print(f"KNOWN-FINDING: property={pid} {name}: "
                          f"{listed[(pid, name)]}")
                else:
                    path = write_replay(pid, {"property": pid,
                                              "probe": name})
                    viol.append((path, f"probe {name}: {bad}"))
        for s in sub:
            if capped or len(viol) >= 5:
                break
            with ctx.Pool(procs, initializer=_init,
                          initargs=(mod, s, scratch, pid)) as pool:
                share = (n + len(sub) - 1) // len(sub)
                for k, h, o in pool.imap_unordered(_work, range(share),
                                                   chunksize=2):
                    done += 1
                    if o.harness:
                        harness.append(f"case {s}/{k}: {o.harness}")
                        continue
                    if o.inconclusive:
                        incon.append(f"case {s}/{k}: {o.inconclusive}")
                    kinds[o.kind] = kinds.get(o.kind, 0) + 1
                    nontriv = False
                    for m, (a, b) in o.counts.items():
                        c = counts.setdefault(m, [0, 0])
                        c[0] += a
                        c[1] += b
                        events += a
                        if b and (not getattr(mod, "TAGS", None)
                                  or m in mod.TAGS):
                            nontriv = True
                    if o.sample and len(samples) < 4:
                        samples.append(o.sample)
                    for f in o.features:
                        feats[f] = feats.get(f, 0) + 1
                    if o.info:
                        for a, b in o.info.items():
                            infos.setdefault(a, set()).add(str(b))
                    if nontriv and h:
                        distinct.add(h)
                    if o.problems:
                        path = write_replay(pid, {
                            "property": pid, "seed": s, "k": k,
                            "problems": o.problems})
                        viol.append((path, "; ".join(
                            f"[{a}] {b}" for a, b in o.problems[:3])))
                        if len(viol) >= 5:
                            pool.terminate()
                            break
                    if time.time() - t0 > cap:
                        capped = True
                        pool.terminate()
                        break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    need = getattr(mod, "NEED", {})
    missing = {}
    if not viol:
        for tag, least in need.items():
            have = counts.get(tag, [0, 0])[1]
            if have < least:
                missing[tag] = [have, least]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done + len(probe_seen),
            "distinct_nontrivial": len(distinct) + len(probe_seen),
            "rule": getattr(mod, "RULE", "distinct generated systems "
                            "(spec hash) in which a monitor of this property "
                            "saw a nontrivial event: a limit that binds, a "
                            "non-zero coupled quantity, or an expected "
                            "rejection"),
            "samples": samples or probe_seen[:3] or ["none"],
            "monitors": {str(m): {"evaluated": a, "nontrivial": b}
                         for m, (a, b) in sorted(counts.items())},
            "observed_events": events,
            "outcomes": kinds,
            "features": feats,
            "distinct_observations": {a: len(b) for a, b in infos.items()},
            "probes": sorted(probe_seen),
            "seeds": sub,
            "inconclusive": len(incon),
            "inconclusive_samples": incon[:5],
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "glpk, cbc and HiGHS solve these small models to within "
            "tolerance; a mismatch counts only if two solvers show it",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {done} cases, {len(distinct)} distinct "
          f"nontrivial, {events} monitor events, outcomes {kinds}, "
          f"{len(incon)} inconclusive, {wall:.1f}s")
    for path, txt in viol[:5]:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {txt[:700]}")
    if viol:
        return 1
    if harness:
        print(f"HARNESS-ERROR ({len(harness)}): {harness[0]}")
        return 2
    if missing:
        print(f"INCONCLUSIVE: monitors not reached: {missing}")
        return 2
    if len(incon) > max(5, 0.2 * done):
        print(f"INCONCLUSIVE: {len(incon)} of {done} cases: {incon[:3]}")
        return 2
    if capped and done < n // 3:
        print("INCONCLUSIVE: time cap")
        return 2
    return 0


def replay(mod, pid, path):
    with open(path) as f:
        p = json.load(f)
    if "probe" in p:
        for name, fn in mod.PROBES:
            if name == p["probe"]:
                bad = fn()
                print(bad)
                return 1 if bad else 0
    case = mod.gen(case_rng(pid, p["seed"], p["k"]), p["k"])
    print(json.dumps(case, default=str))
    o = run_case(mod, case)
    print(o.kind, o.problems, o.inconclusive, o.harness)
    if o.problems:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 2 if o.harness else 0
