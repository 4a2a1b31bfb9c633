"""V03: the root folder, and the options that the server is started with."""
from lib import code


def spoil(rng, ep):
    steps = [e["out"] for e in ep["events"] if e["out"]["clients"] or e["out"]["events"]]
    if not steps:
        return None
    e = rng.choice(steps)
    if e["clients"]:
        k = rng.choice(["logLevel", "dependencyLogLevels"])
        e["clients"][0][k] = "none" if e["clients"][0][k] != "none" else "trace"
    else:
        e["events"][0]["folder"] += "x"
    return ep


def run(c):
    code.model(c, "folders")
    code.replay(c, "folders", "folders that are there or not")
    code.traces(c, "folders", 3000, 40000, spoil, "random sessions")
