"""L06: the client's settings, and telling it about those in files."""
from lib import rlsp


def corrupt(rng, ep):
    bursts = [b for b in ep["bursts"] if b["pulls"] or b["syncs"]]
    if not bursts:
        return None
    b = rng.choice(bursts)
    if b["syncs"] and rng.random() < 0.5:
        sync = rng.choice(b["syncs"])
        if not sync:
            return None
        sync[0]["toml"]["indent_width"] += 1
    elif b["pulls"]:
        pull = rng.choice(b["pulls"])
        pull["items"] = [x for x in pull["items"] if x["section"] != "air.logLevel"]
    else:
        return None
    return ep


def run(c):
    rlsp.server(c, "sync", 8000, 40000, corrupt)
    c.assumptions += ["after a watched file changed, with no configuration found anew, telling the client is optional"]
