"""B07: line endings of the output."""
from lib import rfmt


def corrupt(rng, ep):
    out = ep["out"]
    if len(out) < 2:
        return None
    i = rng.randrange(len(out) - 1)
    out[i] = out[i][:-1] if out[i].endswith("\r") else out[i] + "\r"
    return ep


def run(c):
    eps = rfmt.programs(c, "ends", c.pick(5000, 50000))
    c.sample(*[{"text": e["text"], "ending": e["ending"]} for e in eps[:2]])
    c.validate("format", "Trace_Ends", eps, "random line endings", corrupt=corrupt, key="out", shards=8, heap="2g", timeout=840)
    c.assumptions += rfmt.ASSUMPTIONS + ["`native` is `\\n`: the checks run on Unix"]
