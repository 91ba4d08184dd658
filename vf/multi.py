"""Random multi-period systems."""
from .gen import G


class MG(G):
    def __init__(self, rng, pmax=4, **kw):
        P = rng.choice([1, 2, 2, 3, 3, 4][:max(1, 2 + pmax)])
        P = min(P, pmax)
        counts = [rng.randint(1, 3) for _ in range(P)]
        span = rng.choice([1, 1, 1, 3, 5])
        if span > 1:
            counts[-1] = max(2, counts[-1])
        years = [rng.choice([2020, 2025, 2031])]
        gap = rng.choice([1, 1, 5, None])
        for _ in range(P - 1):
            years.append(years[-1] + (gap or rng.choice([1, 2, 5, 10])))
        super().__init__(rng, T=sum(counts), modes=False, **kw)
        self.P = P
        self.years = years
        self.span = span
        self.horizon = years[-1] - years[0] + span
        self.spec["periods"] = {"years": years, "counts": counts,
                                "last_span": span}
        if rng.random() < .25:
            self.spec["periods"]["end"] = True
            self.feat.append("last time point")
        # zero: see known finding C32/zero-discount-rate
        self.spec["discount_rate"] = rng.choice([.01, .02, .02, .05, .1])
        if rng.random() < .3:
            self.spec["use_remaining_value"] = True
            self.feat.append("remaining value")

    def pseq(self, lo, hi, step=.5, p=.6):
        """scalar or one value per period"""
        if self.r.random() < p:
            return [self.num(lo, hi, step) for _ in range(self.P)]
        return self.num(lo, hi, step)

    def yearly(self, lo, hi, step=.25):
        """scalar or one value per year"""
        if self.chance(.5):
            return [self.num(lo, hi, step) for _ in range(self.horizon)]
        return self.num(lo, hi, step)

    def minvest(self, lo_cost=0, hi_cost=25, optional=.25, most=15):
        inv = {"ep_costs": self.pseq(lo_cost, hi_cost),
               "lifetime": self.r.choice([1, 2, 3, 5, 8, 10, 20, 30])}
        if self.chance(.6):
            inv["maximum"] = self.pseq(2, most)
        if self.chance(.3):
            top = inv.get("maximum", 3)
            top = min(top) if isinstance(top, list) else top
            inv["minimum"] = self.pseq(0, min(2.5, top))
        if self.chance(optional):
            inv.setdefault("maximum", self.pseq(6, most))
            inv["nonconvex"] = True
            inv["offset"] = self.pseq(.5, 20)
            self.feat.append("optional investment")
        elif self.chance(.4):
            inv["existing"] = self.num(.5, 8, .5)
            if inv["lifetime"] > 1 and self.chance(.6):
                inv["age"] = self.r.randint(0, inv["lifetime"] - 1)
            self.feat.append("existing")
        if self.chance(.25):
            inv["overall_maximum"] = self.num(4, 25, .5)
        if self.chance(.2):
            inv["overall_minimum"] = self.num(.5, 3, .5)
        if self.chance(.35):
            inv["fixed_costs"] = self.yearly(0, 4)
        return inv
