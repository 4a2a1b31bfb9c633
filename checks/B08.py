"""B08: assignment operators."""
from lib import rfmt


def corrupt(rng, ep):
    ops = rfmt.nodes(ep["read"]["tree"], lambda n: n["k"] == "" and n["s"] in ("=", "<-"))
    inner = rfmt.nodes(ep["read"]["tree"], lambda n: n["k"] == "R_BINARY_EXPRESSION" and n["c"][1]["s"] in ("=", "<-"))
    if not ops or not inner:
        return None
    t = rng.choice(inner)["c"][1]
    t["s"] = "<-" if t["s"] == "=" else "="
    return ep


def run(c):
    eps = rfmt.programs(c, "program", c.pick(4000, 40000))
    rfmt.program(c, eps, "assign", "assignments anywhere", corrupt)
    eps = rfmt.programs(c, "tidy", c.pick(3000, 30000))
    c.sample(*[{"text": e["text"], "out": "\n".join(e["out"])} for e in eps[:2]])
    rfmt.program(c, eps, "assign", "assignments with comments", corrupt)
    rfmt.replay(c, "layout", "small programs with both styles")
    c.assumptions += rfmt.ASSUMPTIONS
