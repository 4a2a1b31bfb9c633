"""B11: what is no program is refused."""
from lib import rfmt


def corrupt(rng, ep):
    if ep["res"] == "error":
        how = rng.choice(["ok", "message", "tree"])
        if how == "ok":
            ep["res"], ep["out"] = "ok", ep["text"].split("\n")
        elif how == "message":
            ep["error"] = ""
        else:
            ep["read"]["same"] = False
    elif ep["how"] == "none":
        ep["res"] = rng.choice(["error", "panic"])
    else:
        return None
    return ep


def run(c):
    eps = rfmt.programs(c, "broken", c.pick(6000, 60000))
    c.sample(*[{"text": e["text"], "res": e["res"]} for e in eps[:2]])
    c.validate("format", "Trace_Broken", eps, "brackets that do not match", corrupt=corrupt, key="tokens", shards=8, heap="2g")
    c.assumptions += rfmt.ASSUMPTIONS
