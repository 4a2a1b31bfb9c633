"""L01: how a conversation with the server begins and ends."""
from lib import rlsp


def corrupt(rng, ep):
    s = ep["started"]
    which = rng.randrange(6)
    if which == 0:
        s["encoding"] = "utf-8" if s["encoding"] == "utf-16" else "utf-16"
    elif which == 1:
        s["sections"].append("air.logLevel")
    elif which == 2:
        s["watched"].append("**/air.toml")
    elif which == 3:
        s["range"] = False
    elif which == 4:
        ep["ended"]["answered"] = False
    else:
        s["sync"] = 1
    return ep


def run(c):
    rlsp.server(c, "start", 12000, 60000, corrupt)
    c.assumptions += ["the rest of the conversation is up to the client; it ends with `shutdown` and `exit`"]
