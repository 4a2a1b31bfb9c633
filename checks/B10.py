"""B10: what is between the tokens."""
from lib import rfmt


def corrupt(rng, ep):
    full = [i for i, t in enumerate(ep["read"]["trivia"]) if t["b"] or t["a"]]
    if not full:
        return None
    ts = ep["read"]["trivia"]
    i = rng.choice(full)
    t = ts[i]
    if t["a"] and i + 1 < len(ts) and rng.random() < 0.6:
        ts[i + 1]["b"].insert(0, t["a"].pop())
    elif t["b"]:
        t["b"].pop()
    else:
        t["a"][0]["s"] += " "
    return ep


def run(c):
    eps = rfmt.programs(c, "tree", c.pick(6000, 60000))
    c.sample(*[{"text": e["text"]} for e in eps[:2]])
    c.validate("format", "Trace_Parse", eps, "random programs", env={"WHAT": "trivia"}, corrupt=corrupt, key="tokens", shards=8,
               heap="2g", timeout=840)
    c.assumptions += rfmt.ASSUMPTIONS
