"""D02: edits of a text."""
from lib import rlsp


def corrupt(rng, ep):
    if ep["kind"] == "union" and not ep["ok"]:
        ep["kept"].append({"s": 0, "e": 0, "ins": [97]})
        return ep
    if ep["kind"] == "build":
        how = rng.choice(["applied", "mapped", "touched", "indels"])
        if how == "mapped":
            ep["mapped"][rng.randrange(len(ep["mapped"]))] += 1
        elif how == "touched":
            i = rng.randrange(len(ep["touched"]))
            ep["touched"][i] = 1 - ep["touched"][i]
        else:
            ep[how].append(97 if how == "applied" else {"s": 0, "e": 0, "ins": []})
        return ep
    if not ep["indels"]:
        return None
    if rng.random() < 0.5:
        ep["applied"].append(97)
    else:
        rng.choice(ep["indels"])["ins"].append(120)
    return ep


def run(c):
    binary = rlsp.build()
    n, path = rlsp.cases(c, "MC_Edits", c.pick("MC_Edits.cfg", "MC_Edits_deep.cfg"), "edits.ndjson")
    c.replayed("a few edits of short texts", n, c.drive(binary, ["edits-replay", path], timeout=600))
    eps = rlsp.traces(c, "algebra", c.pick(6000, 60000))
    c.sample(*eps[:2])
    c.validate("lsp", "Trace_Edits", eps, "random edits", corrupt=corrupt, shards=8, heap="2g", timeout=840)
    c.assumptions += rlsp.ASSUMPTIONS + [
        "the same deletion is not added to a builder twice", "whether edits that begin at one place can be united is left open"]
