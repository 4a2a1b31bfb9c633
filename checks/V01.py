"""V01: the life of the language server in VS Code, and the terminals' PATH."""
from lib import code


def spoil(rng, ep):
    e = rng.choice(ep["events"])["out"]
    what = rng.choice(["path", "settled", "client"])
    if what == "path":
        e["path"] = "~/e9:" if e["path"] == "" else ""
    elif what == "settled":
        e["settled"] = e["settled"][1:] if e["settled"] else [{"id": 99, "ok": True}]
    else:
        e["client"] += 1
    return ep


def run(c):
    code.model(c, "life")
    code.replay(c, "life", "starts, stops and restarts")
    code.traces(c, "lifecycle", 3000, 40000, spoil, "random sessions")
