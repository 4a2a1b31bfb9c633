"""B02: formatting keeps every comment once."""
from lib import rfmt


def corrupt(rng, ep):
    cs = ep["read"]["comments"]
    if not cs:
        return None
    i = rng.randrange(len(cs))
    how = rng.choice(["drop", "twice", "text"])
    if how == "drop":
        cs.pop(i)
    elif how == "twice":
        cs.insert(i, cs[i])
    else:
        cs[i] += "!"
    return ep


def swap(rng, ep):
    cs = ep["read"]["comments"]
    if len(set(cs)) < 2:
        return None
    cs.append(cs.pop(0))
    return ep if cs != ep["comments"] else None


def run(c):
    eps = rfmt.programs(c, "program", c.pick(4000, 40000))
    c.sample(*[{"text": e["text"], "out": "\n".join(e["out"])} for e in eps[:2]])
    rfmt.program(c, eps, "comments", "comments anywhere are kept once", corrupt)
    eps = rfmt.programs(c, "tidy", c.pick(4000, 40000))
    rfmt.program(c, eps, "order", "comments around statements, arguments and operands keep their order", swap)
    for kind, what in (("table", "comments in tables"), ("skip", "comments in what is left alone")):
        eps = rfmt.programs(c, kind, c.pick(2000, 20000))
        rfmt.program(c, eps, "comments", what, corrupt)
    rfmt.given(c, "comments", "the inputs of the repository's tests", corrupt)
    c.assumptions += rfmt.ASSUMPTIONS
