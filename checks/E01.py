"""E01: line endings: detection, normalization, and the ending a file is written with."""
import json

from lib import vf


def corrupt(rng, ep):
    k = rng.choice(["infer", "normalize", "normalize_ref", "finals"])
    if k == "infer":
        ep[k] = "lf" if ep[k] == "crlf" else "crlf"
    elif k == "finals":
        f = rng.choice(ep[k])
        f["result"] = "lf" if f["result"] == "crlf" else "crlf"
    else:
        ep[k] = ep[k] + [13]
    return ep


def run(c):
    binary = vf.build("workspace")
    c.model("text", "MC_LineEnding")
    r = c.tlc("text", "MC_LineEnding", cfg="Emit_LineEnding.cfg", env={"EMIT": "1"})
    cases = c.printed(r["out"], "CASE")
    path = c.path("cases.ndjson")
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    c.replayed("texts of up to 6 characters", len(cases), c.drive(binary, ["line-ending-replay", path]))
    eps = c.drive(binary, ["line-ending-trace", c.pick(3000, 30000)])
    c.sample(*eps[:2])
    c.validate("text", "Trace_LineEnding", eps, "recorded conversions", corrupt=corrupt)
    c.assumptions += ["`native` is `\\n`: the checks run on Unix"]
