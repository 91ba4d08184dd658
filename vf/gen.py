"""Random workload generators on a coarse numeric grid (keeps systems away
from borderline feasibility and makes exact arithmetic likely)."""

BIG = 80.0


class G:
    """Grows a spec around the component under test."""

    def __init__(self, rng, T=None, tmin=1, tmax=6, inc=None, modes=True,
                 long=0.03, longest=26):
        self.r = rng
        if T is None and rng.random() < long:
            T = rng.randint(11, longest)
            if longest == 26 and rng.random() < .04:
                T = rng.choice([30, 48, 60, 100, 169])
        self.T = T or rng.randint(tmin, tmax)
        self.spec = {"inc": inc or self.increments(), "buses": [],
                     "nodes": [], "cons": []}
        if modes:
            self.spec["index"] = rng.choice(
                ["datetime", "datetime", "infer", "numeric", "increment"])
        self.n = 0
        self.feat = []

    # ---------------------------------------------------------- numbers
    def increments(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return [1.0] * self.T
        if k < 0.33:
            return [r.choice([1 / 60, 1 / 12, 1 / 3, 6.0, 24.0])] * self.T
        if k < 0.35:
            return [r.choice([1 / 12, 1 / 3, 5 / 6, 7.0, 11.0])
                    for _ in range(self.T)]
        if k < 0.5:
            return [r.choice([0.25, 0.5, 2.0, 3.0])] * self.T
        return [r.choice([0.25, 0.5, 1.0, 1.5, 2.0, 3.0])
                for _ in range(self.T)]

    def num(self, lo, hi, step=0.25):
        k = int(round((hi - lo) / step))
        return round(lo + self.r.randint(0, k) * step, 6)

    def seq(self, lo, hi, step=0.25, p=0.6):
        """scalar or list of length T"""
        if self.r.random() < p:
            return [self.num(lo, hi, step) for _ in range(self.T)]
        return self.num(lo, hi, step)

    def chance(self, p):
        return self.r.random() < p

    def label(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    # ---------------------------------------------------------- topology
    def bus(self, balanced=True, prefix="b"):
        lab = self.label(prefix)
        self.spec["buses"].append({"label": lab, "balanced": balanced})
        return lab

    def add(self, kind, prefix=None, **kw):
        lab = self.label(prefix or kind.lower()[:4])
        node = {"kind": kind, "label": lab}
        node.update(kw)
        self.spec["nodes"].append(node)
        return lab

    def source(self, bus, **flow):
        return self.add("Source", "src", outputs={bus: flow})

    def sink(self, bus, **flow):
        return self.add("Sink", "snk", inputs={bus: flow})

    def demand(self, bus, lo=0, hi=10):
        vals = [self.num(lo, hi, 0.5) for _ in range(self.T)]
        return self.sink(bus, nominal_capacity=1.0, fix=vals)

    def backstop(self, bus, lo=40, hi=BIG):
        """expensive unlimited supply"""
        return self.source(bus, variable_costs=self.seq(lo, hi, 1, 0.3))

    def excess(self, bus, lo=0, hi=4):
        if hi == 4 and self.chance(.1):
            hi = 25  # avoiding a surplus is worth a lot
        return self.sink(bus, variable_costs=self.seq(lo, hi, 0.5, 0.3))

    def market(self, bus, cap=None, lo=-10, hi=30):
        """buyer with a limit and time-varying price (drives the flow up)"""
        return self.sink(bus, nominal_capacity=cap or self.num(5, 30, 1),
                         variable_costs=[-self.num(lo, hi, 0.5)
                                         for _ in range(self.T)])

    # -------------------------------------------------------------- flows
    def price(self, lo=-8, hi=20):
        k = self.r.random()
        if k < 0.15:
            return None
        return self.seq(lo, hi, 0.5)

    def flow(self, cap=True, neg=0.1, **over):
        """generic flow keyword arguments"""
        r = self.r
        f = {}
        if cap or r.random() < 0.7:
            f["nominal_capacity"] = self.num(2, 20, 0.5)
            k = r.random()
            if k < 0.2:
                f["fix"] = self.seq(0, 1.25, 0.25)
            else:
                if r.random() < 0.6:
                    f["maximum"] = self.seq(0.5, 1.25, 0.25)
                if r.random() < 0.3:
                    f["minimum"] = self.seq(0, 0.5, 0.125)
                elif r.random() < neg:
                    f["minimum"] = self.seq(-1, -0.25, 0.25)
        p = self.price()
        if p is not None:
            f["variable_costs"] = p
        f.update(over)
        return f

    # ---------------------------------------------------------- nonconvex
    def nonconvex(self, costs=True, limits=True, runlength=False,
                  gradients=False):
        r, nc = self.r, {}
        if r.random() < .6:
            nc["initial_status"] = r.randint(0, 1)
        if costs:
            for key in ("startup_costs", "shutdown_costs", "activity_costs",
                        "inactivity_costs"):
                if r.random() < .45:
                    nc[key] = self.seq(0, 20, .5)
            if r.random() < .1:
                nc[r.choice(["activity_costs", "inactivity_costs"])] = \
                    self.seq(-10, 5, .5)
        if limits:
            if r.random() < .35:
                nc["maximum_startups"] = r.randint(0, 2)
            if r.random() < .35:
                nc["maximum_shutdowns"] = r.randint(0, 2)
        if runlength:
            for key in ("minimum_uptime", "minimum_downtime"):
                if r.random() < .7:
                    nc[key] = r.randint(1, 4)
                    if r.random() < .25:
                        nc[key] = [r.randint(0, 3) for _ in range(self.T)]
                        self.feat.append("run length per step")
        if gradients:
            for key in ("positive_gradient_limit", "negative_gradient_limit"):
                if r.random() < .6:
                    nc[key] = self.seq(.125, .75, .125)
        return nc

    def nc_flow(self, nc, invest=None):
        r = self.r
        f = {"nominal_capacity": self.num(4, 15, .5), "nonconvex": nc,
             "variable_costs": self.price(-5, 20) or 1}
        if invest is not None:
            f["nominal_capacity"] = {"invest": invest}
        if r.random() < .8:
            f["minimum"] = self.seq(.125, .625, .125)
        if r.random() < .4:
            f["maximum"] = self.seq(.625, 1.25, .125)
        return f

    # ------------------------------------------------------------ storage
    def storage_params(self, invest=False, absolute=True, multi=False):
        r, T, n = self.r, self.T, {}
        if r.random() < .6:
            n["loss_rate"] = self.seq(0, .25, .0625, .4)
        if r.random() < .35:
            n["fixed_losses_relative"] = self.seq(0, .0625, .015625, .4)
        if absolute and r.random() < .35:
            n["fixed_losses_absolute"] = self.seq(0, .5, .125, .4)
        if r.random() < .6:
            n["inflow_conversion_factor"] = self.seq(.5, 1, .125, .4)
        if r.random() < .6:
            n["outflow_conversion_factor"] = self.seq(.5, 1, .125, .4)
        lo, hi = 0, 1
        if r.random() < .35:
            lo = [self.num(0, .25, .125) for _ in range(T + 1)] \
                if r.random() < .5 else self.num(0, .25, .125)
            n["min_storage_level"] = lo
        if r.random() < .35:
            hi = [self.num(.5, 1, .125) for _ in range(T + 1)] \
                if r.random() < .5 else self.num(.5, 1, .125)
            n["max_storage_level"] = hi
        if not multi and r.random() < .6:
            n["initial_storage_level"] = self.num(
                lo[0] if isinstance(lo, list) else lo,
                hi[0] if isinstance(hi, list) else hi, .125)
        if r.random() < .6:
            n["balanced"] = r.random() < .5
        if r.random() < .3:
            n["storage_costs"] = self.seq(-.5, 2, .25)
        return n


def extremes(rng, spec, p=.15):
    """Set a few parameters to values at the edge of their range: zero is
    easily mistaken for 'not given'."""
    rag = ragged(rng, spec)
    if rng.random() > p:
        return rag
    done, places = rag, []
    fixed_kinds = ("Source", "Sink", "Converter", "Link", "Storage")
    gated = {x for c in spec.get("cons", []) if c["type"] == "storage_level"
             for x in list(c["input_levels"]) + list(c["output_levels"])}
    keep = {c["storage"] for c in spec.get("cons", [])
            if c["type"] == "storage_level"}
    for n in spec["nodes"]:
        if n["kind"] not in fixed_kinds or n["label"] in gated:
            continue
        for d in (n.get("inputs") or {}), (n.get("outputs") or {}):
            for f in d.values():
                cap = f.get("nominal_capacity")
                if f.get("nonconvex") is not None:
                    continue
                for key in ("full_load_time_max", "positive_gradient_limit",
                            "negative_gradient_limit"):
                    if key in f:
                        places.append((f, key, 0))
                if cap is None:
                    continue
                if not isinstance(cap, dict):
                    places.append((f, "nominal_capacity", 0))
                if "fix" in f:
                    places.append((f, "fix", 0))
                elif "minimum" not in f:
                    places.append((f, "maximum", 0))
                if "variable_costs" in f and "minimum" not in f and \
                        not isinstance(cap, dict):
                    places.append((f, "variable_costs", 0))
        if n["kind"] == "Storage" and n["label"] not in keep:
            if "initial_storage_level" in n and "min_storage_level" not in n:
                places.append((n, "initial_storage_level", 0))
            places.append((n, "loss_rate", 1))
            places.append((n, "storage_costs", 0))
            if not isinstance(n.get("nominal_capacity"), dict) and \
                    "constant_soc_until" not in n:
                places.append((n, "nominal_capacity", 0))
        if n["kind"] == "Converter":
            for b in n.get("conversion_factors") or {}:
                places.append((n["conversion_factors"], b, 0))
        if n["kind"] == "Link":
            for k in range(len(n["conversion_factors"])):
                places.append((n["conversion_factors"][k], 2, 0))
    for c in spec.get("cons", []):
        for key in ("upper", "upper_limit", "limit"):
            if c.get(key) is not None and not isinstance(c[key], list):
                places.append((c, key, 0))
    if places:
        for d, key, x in rng.sample(places, min(len(places),
                                                rng.choice([1, 1, 2]))):
            d[key] = x
            done.append(f"{'factor' if key == 2 else key} = {x}")
    return done


def ragged(rng, spec, p=.08):
    """Numbers are usually taken from a coarse grid, which would hide that
    something is rounded: some get more digits."""
    if rng.random() > p:
        return []

    def fine(x, up=0):
        """up: 1 only larger, -1 only smaller, 0 both"""
        if isinstance(x, list):
            return [fine(y, up) for y in x]
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return x
        u = rng.random() * .02
        return x * (1 + (u if up > 0 else -u if up < 0 else u - .01))

    def change(d, key, up=0):
        if d.get(key) is not None and rng.random() < .6:
            d[key] = fine(d[key], up)

    def flow(f):
        change(f, "variable_costs")
        cap = f.get("nominal_capacity")
        if isinstance(cap, dict):
            change(cap.get("invest", {}), "ep_costs")
            change(cap.get("invest", {}), "offset")
        if f.get("integer"):
            return
        if cap is not None and not isinstance(cap, dict):
            change(f, "nominal_capacity", 1)
        if not f.get("nonconvex"):
            change(f, "fix")
        for key in ("full_load_time_max", "positive_gradient_limit",
                    "negative_gradient_limit"):
            change(f, key, 1)

    whole = any(f.get("integer") for n in list(spec["nodes"]) + spec["buses"]
                for d in (n.get("inputs") or {}, n.get("outputs") or {})
                for f in d.values())
    for n in list(spec["nodes"]) + list(spec["buses"]):
        for d in (n.get("inputs") or {}), (n.get("outputs") or {}):
            for f in d.values():
                if whole or n.get("kind") == "PWL":
                    change(f, "variable_costs")
                else:
                    flow(f)
        if whole:
            continue
        if n.get("kind") == "Converter":
            for b in n.get("conversion_factors") or {}:
                change(n["conversion_factors"], b)
        elif n.get("kind") == "Link":
            for k in range(len(n["conversion_factors"])):
                if rng.random() < .6:
                    x = list(n["conversion_factors"][k])
                    x[2] = fine(x[2])
                    n["conversion_factors"][k] = x
        elif n.get("kind") == "Storage":
            for key in ("loss_rate", "inflow_conversion_factor",
                        "outflow_conversion_factor", "fixed_losses_relative",
                        "fixed_losses_absolute"):
                change(n, key, -1)
            change(n, "storage_costs")
    return ["ragged numbers"]
