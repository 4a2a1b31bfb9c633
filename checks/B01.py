"""B01: formatting keeps the program."""
from lib import rfmt


def corrupt(rng, ep):
    tree = ep["read"]["tree"]
    leaves = rfmt.nodes(tree, lambda n: n["k"] == "R_IDENTIFIER")
    lists = rfmt.nodes(tree, lambda n: n["k"] in ("R_EXPRESSION_LIST", "R_ARGUMENT_LIST") and n["c"])
    how = rng.choice(["name", "drop", "twice", "broken"])
    if how == "name" and leaves:
        rng.choice(leaves)["s"] += "x"
    elif how == "drop" and lists:
        n = rng.choice(lists)
        n["c"].pop()
    elif how == "twice" and lists:
        n = rng.choice(lists)
        n["c"].append(n["c"][-1])
    else:
        ep["read"]["ok"] = False
    return ep


def run(c):
    eps = rfmt.programs(c, "program", c.pick(4000, 40000))
    c.sample(*[{"text": e["text"], "out": "\n".join(e["out"])} for e in eps[:2]])
    rfmt.program(c, eps, "program", "programs with comments anywhere", corrupt)
    eps = rfmt.programs(c, "tidy", c.pick(2000, 20000))
    rfmt.program(c, eps, "program", "programs with tidy comments", corrupt)
    for kind in ("table", "skip"):
        eps = rfmt.programs(c, kind, c.pick(2000, 20000))
        rfmt.program(c, eps, "program", f"programs with comments that ask for {kind}", corrupt)
    rfmt.given(c, "program", "the inputs of the repository's tests", corrupt)
    c.assumptions += rfmt.ASSUMPTIONS
