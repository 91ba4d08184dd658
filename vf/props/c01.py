"""Bus balance on random networks."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 4800, "thorough": 38400}
TAGS = {"balance"}
NEED = {"balance": 300}


def gen(rng, k):
    g = composed(rng, ["limits", "integer", "costs", "invest", "nonconvex"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmax=5)
    nb = rng.randint(1, 5)
    buses = [g.bus(balanced=rng.random() < 0.9) for _ in range(nb)]
    if rng.random() < 0.3 and nb > 1:
        g.feat.append("bus-to-bus")
        b = g.spec["buses"][-1]
        others = rng.sample(buses[:-1], rng.randint(1, min(2, nb - 1)))
        for o in others:
            for key in rng.choice([["inputs"], ["outputs"],
                                   ["inputs", "outputs"]]):
                b.setdefault(key, {})[o] = g.flow()
    for b in buses:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            g.source(b, **g.flow())
        for _ in range(rng.choice([0, 1, 1, 2])):
            g.sink(b, **g.flow())
        if rng.random() < 0.75:
            g.backstop(b)
        if rng.random() < 0.75:
            g.excess(b)
    for _ in range(rng.randint(0, 3)):
        if nb < 2:
            break
        ins = rng.sample(buses, rng.randint(1, min(2, nb - 1)))
        rest = [b for b in buses if b not in ins]
        outs = rng.sample(rest, rng.randint(1, min(2, len(rest))))
        g.add("Converter", inputs={b: g.flow(cap=False, neg=0, minimum=0)
                                   if rng.random() < .5 else {} for b in ins},
              outputs={b: {"nominal_capacity": g.num(4, 20, 1)} for b in outs},
              conversion_factors={b: g.seq(0.25, 2, 0.25)
                                  for b in ins + outs})
    for n in g.spec["nodes"]:
        for d in (n.get("inputs", {}), n.get("outputs", {})):
            for f in d.values():
                if f.get("fix") is not None:
                    f.pop("minimum", None)
                    f.pop("maximum", None)
                if "nominal_capacity" not in f:
                    for key in ("minimum", "maximum", "fix"):
                        f.pop(key, None)
                    if isinstance(f.get("variable_costs"), list):
                        f["variable_costs"] = [abs(x) for x in
                                               f["variable_costs"]]
                    elif f.get("variable_costs") is not None:
                        f["variable_costs"] = abs(f["variable_costs"])
    return case(rng, g)
