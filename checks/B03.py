"""B03: what was formatted is formatted."""
from lib import rfmt


def corrupt(rng, ep):
    ep["then"] = ep["then"][:-1] + [" ", ""]
    return ep


def run(c):
    for kind, n in (("plain", 3), ("tidy", 4), ("skip", 3), ("table", 2)):
        eps = rfmt.programs(c, kind, c.pick(n * 1000, n * 12000))
        if kind == "tidy":
            c.sample(*[{"text": e["text"], "out": "\n".join(e["out"])} for e in eps[:2]])
        c.validate("format", "Trace_Again", eps, f"{kind} programs, formatted twice", corrupt=corrupt, key="out", shards=8,
                   heap="2g")
    rfmt.replay(c, "layout", "small programs, formatted twice")
    rfmt.given(c, "again", "the inputs of the repository's tests", corrupt)
    c.assumptions += rfmt.ASSUMPTIONS
