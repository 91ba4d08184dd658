"""Fixed-ratio conversion (Converter) and directed transmission (Link)."""
from ..dress import composed
from ..gen import G
from .base import case, run  # noqa: F401

N = {"quick": 6000, "thorough": 48000}
TAGS = {"converter", "link"}
NEED = {"converter": 500, "link": 500}


def gen(rng, k):
    g = composed(rng, ["limits", "integer", "fullload", "gradient", "invest", "nonconvex"],
                 adders=["converter", "link"])
    if g is not None:
        return case(rng, g)
    g = G(rng, tmax=5)
    if rng.random() < 0.5:
        ni, no = rng.randint(1, 3), rng.randint(1, 3)
        ins = [g.bus() for _ in range(ni)]
        outs = [g.bus() for _ in range(no)]
        if g.chance(.1):
            outs[-1] = ins[0] if g.chance(.5) and no > 1 else outs[-1]
            outs = list(dict.fromkeys(outs))
        cf = {}
        for b in dict.fromkeys(ins + outs):
            if g.chance(.75):
                cf[b] = g.seq(.25, 2.5)
                if b in outs and g.chance(.06):
                    cf[b] = g.seq(0, 1)
                    g.feat.append("zero factor")
        node = {"inputs": {}, "outputs": {}, "conversion_factors": cf}
        if not cf:
            node.pop("conversion_factors")
            g.feat.append("no factors given")
        for b in ins:
            node["inputs"][b] = g.flow(neg=0) if g.chance(.4) else {}
        for b in outs:
            node["outputs"][b] = g.flow(neg=.1) if g.chance(.5) else {}
        for d in node["inputs"], node["outputs"]:
            for f in d.values():
                f.pop("fix", None)
        if g.chance(.9):
            b = rng.choice(outs)
            node["outputs"][b]["nominal_capacity"] = g.num(3, 15, 1)
        g.add("Converter", **node)
        for b in ins:
            g.source(b, nominal_capacity=g.num(5, 40, 1),
                     variable_costs=g.seq(0, 10, .5))
        for b in outs:
            g.market(b) if g.chance(.6) else g.demand(b, 0, 8)
        buses = list(dict.fromkeys(ins + outs))
        g.feat.append(f"converter {ni}x{no}")
    else:
        nb = rng.randint(2, 4)
        buses = [g.bus() for _ in range(nb)]
        for _ in range(rng.randint(1, 2)):
            pairs = [(a, b) for a in buses for b in buses if a != b]
            rng.shuffle(pairs)
            use, src, dst = [], {}, {}
            for a, b in pairs[:rng.randint(1, 3)]:
                # every output is fed through exactly one declared connection
                if b in dst:
                    continue
                dst[b] = a
                src[a] = 1
                use.append([a, b, g.seq(.25, 1.25)])
                if g.chance(.1):
                    use[-1][2] = g.r.choice([0, 0, g.seq(0, .5, .25)])
                    g.feat.append("connection with a factor of zero")
            g.add("Link",
                  inputs={a: (g.flow(neg=0, fix=None) if g.chance(.5) else {})
                          for a in src},
                  outputs={b: ({"nominal_capacity": g.num(3, 15, 1)}
                               if g.chance(.7) else
                               {"variable_costs": g.num(0, 3)})
                           for b in dst},
                  conversion_factors=use)
            g.feat.append(f"link {len(use)}")
        for b in buses:
            g.source(b, nominal_capacity=g.num(5, 30, 1),
                     variable_costs=g.seq(0, 20, .5))
            g.demand(b, 0, 10)
    for b in buses:
        if g.chance(.9):
            g.backstop(b)
            g.excess(b)
    for n in g.spec["nodes"]:
        for d in (n.get("inputs", {}), n.get("outputs", {})):
            for f in d.values():
                if f.get("fix") is None:
                    f.pop("fix", None)
    return case(rng, g)
