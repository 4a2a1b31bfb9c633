"""P01: exclude patterns mean what .gitignore patterns mean, relative to the configuration file."""
import json

from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("ask", "walk")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] == "walk":
        e["entered"] += 1
    else:
        k = rng.choice(["matched", "climb"])
        e[k] = not e[k]
    return ep


def run(c):
    binary = vf.build("workspace")
    c.model("files", "MC_Patterns", cfg=None if c.quick else "MC_Patterns_deep.cfg", timeout=850)
    r = c.tlc("files", "MC_Patterns", cfg="Emit_Patterns.cfg", env={"EMIT": "1"})
    cases = c.printed(r["out"], "CASE")
    path = c.path("cases.ndjson")
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    c.replayed("single patterns", len(cases), c.drive(binary, ["patterns-replay", path]))
    eps = c.drive(binary, ["patterns-trace", c.pick(3000, 30000)])
    c.sample(*eps[:2])
    c.validate("files", "Trace_Patterns", eps, "pattern lists", corrupt=corrupt)
    c.assumptions += ["negated character classes, alternatives and escapes in patterns are left to the glob library"]
