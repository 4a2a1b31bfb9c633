"""D03: edits and positions in the protocol."""
from lib import rlsp


def corrupt(rng, ep):
    if ep["kind"] == "places":
        rng.choice(ep["at"])["character"] += 1
    elif ep["kind"] == "receive":
        ep["applied"].insert(rng.randrange(len(ep["applied"]) + 1), 36)
    elif ep["edits"]:
        rng.choice(ep["edits"])["text"].append(120)
    else:
        return None
    return ep


def run(c):
    c.model("lsp", "MC_Edits", cfg=c.pick("MC_Edits.cfg", "MC_Edits_deep.cfg"), timeout=800)
    eps = rlsp.traces(c, "protocol", c.pick(6000, 60000))
    c.sample(*eps[:2])
    c.validate("lsp", "Trace_Edits", eps, "random edits and texts", corrupt=corrupt, shards=8, heap="2g", timeout=840)
    c.assumptions += rlsp.ASSUMPTIONS + ["positions lie within their lines; no line ends with a lone carriage return"]
