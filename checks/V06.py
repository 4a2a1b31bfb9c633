"""V06: the commands that initialize and format a workspace folder."""
from lib import code


def spoil(rng, ep):
    steps = [e["out"] for e in ep["events"] if "files" in e["out"]]
    if not steps:
        return None
    e = rng.choice(steps)
    what = rng.choice(["files", "settings", "asks", "ran", "saved"])
    if not e[what]:
        return None
    e[what].pop()
    return ep


def run(c):
    code.model(c, "commands")
    code.replay(c, "commands", "folders, their files, and what the user answers")
    code.traces(c, "commands", 3000, 30000, spoil, "random sessions")
