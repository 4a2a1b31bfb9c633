"""L02: every request is answered, once; nothing ends the server."""
from lib import rlsp

OTHER = {"edits": "error", "null": "error", "text": "error", "none": "error", "error": "text"}


def corrupt(rng, ep):
    if not ep["bursts"]:
        return None
    b = rng.choice(ep["bursts"])
    which = rng.randrange(4)
    if which == 0:
        b["stray"] = 1
    elif which == 1:
        b["alive"] = False
    else:
        if not b["outs"]:
            return None
        o = rng.choice(b["outs"])
        o["kind"] = OTHER[o["kind"]]
    return ep


def run(c):
    rlsp.server(c, "order", 10000, 60000, corrupt)
    c.assumptions += ["versions of documents don't decrease, positions lie within their lines, no line ends with a lone "
                      "carriage return; file systems don't fail"]
