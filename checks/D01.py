"""D01: the server's documents are the client's."""
from lib import rlsp


def corrupt(rng, ep):
    note = rng.choice(ep["notes"])["seen"]
    how = rng.choice(["contents", "version", "probe"])
    if how == "version":
        note["version"] += 1
    elif how == "probe" and note["probes"]:
        rng.choice(note["probes"])["character"] += 1
    elif note["contents"]:
        note["contents"].pop(rng.randrange(len(note["contents"])))
    else:
        note["contents"] = [97]
    return ep


def run(c):
    binary = rlsp.build()
    c.model("lsp", "MC_Docs", cfg=c.pick("MC_Docs.cfg", "MC_Docs_deep.cfg"), timeout=800)
    n, path = rlsp.cases(c, "MC_Docs", c.pick("Emit_Docs.cfg", "Emit_Docs_deep.cfg"), "docs.ndjson")
    c.replayed("short texts, changed in every way", n, c.drive(binary, ["docs-replay", path], timeout=600))
    eps = rlsp.traces(c, "docs", c.pick(3000, 40000))
    c.sample(*eps[:2])
    c.validate("lsp", "Trace_Docs", eps, "random histories", corrupt=corrupt, key="notes", shards=8, heap="2g", timeout=840)
    c.assumptions += rlsp.ASSUMPTIONS + [
        "positions lie within their lines, versions increase, and no line ends with a lone carriage return"]
