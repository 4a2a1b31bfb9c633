"""L07: what is logged, and who hears it."""
from lib import rlsp


def corrupt(rng, ep):
    seen = rng.choice([ep] + ep["steps"])["seen"]
    how = rng.choice(["level", "mark", "lost"])
    marks = seen["heard"] or seen["written"]
    if how == "level":
        one = rng.choice(seen["levels"])
        one["level"] = (one["level"] + 1) % 6
    elif how == "mark":
        seen["heard"].append(41)
    elif marks:
        marks.pop(rng.randrange(len(marks)))
    else:
        return None
    return ep


def run(c):
    binary = rlsp.build()
    c.model("lsp", "MC_Logs", cfg=c.pick("MC_Logs.cfg", "MC_Logs_deep.cfg"), timeout=800)
    n, path = rlsp.cases(c, "MC_Logs", c.pick("Emit_Logs.cfg", "Emit_Logs_deep.cfg"), "logs.ndjson")
    c.replayed("levels given at the start and later", n, c.drive(binary, ["logs-replay", path], timeout=800))
    eps = rlsp.traces(c, "logs", c.pick(2500, 20000))
    c.sample(*eps[:2])
    c.validate("lsp", "Trace_Logs", eps, "random sessions", corrupt=corrupt, key="steps", shards=8, heap="2g", timeout=840)
    c.assumptions += rlsp.ASSUMPTIONS + [
        "what is logged is that of one thread, and its filter (tracing_subscriber's Targets) is the real one"]
