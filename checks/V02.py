"""V02: which binary the extension runs."""
from lib import code

spoil = code.spoil("clients", lambda rng, v: [{**v[0], "command": "~/elsewhere/air"}])


def run(c):
    code.model(c, "binary")
    code.replay(c, "binary", "strategies, trust, and binaries that are there or not")
    code.traces(c, "binary", 3000, 40000, spoil, "random sessions")
