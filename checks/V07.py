"""V07: the views of a document's representations."""
from lib import code


def spoil(rng, ep):
    steps = [e["out"] for e in ep["events"] if e["out"].get("requests") or e["out"].get("refreshed")]
    if not steps:
        return None
    e = rng.choice(steps)
    e["requests" if e["requests"] else "refreshed"].pop()
    return ep


def run(c):
    code.model(c, "views")
    code.replay(c, "views", "documents that are looked at, and changed")
    code.traces(c, "views", 800, 6000, spoil, "random sessions")
