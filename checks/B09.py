"""B09: the syntax tree."""
from checks import B01
from lib import rfmt


def corrupt(rng, ep):
    if rng.random() < 0.2:
        ep["read"]["same"] = False
        return ep
    return B01.corrupt(rng, ep)


def lose(rng, ep):
    ep["before"]["same"] = False
    return ep


def run(c):
    rfmt.replay(c, "tree", "small programs in all layouts")
    eps = rfmt.programs(c, "tree", c.pick(6000, 60000))
    c.sample(*[{"text": e["text"]} for e in eps[:2]])
    c.validate("format", "Trace_Parse", eps, "random programs", env={"WHAT": "tree"}, corrupt=corrupt, key="tokens", shards=8,
               heap="2g", timeout=840)
    rfmt.given(c, "read", "the inputs of the repository's tests", lose)
    c.assumptions += rfmt.ASSUMPTIONS
