"""C01: which comments are directives."""
import json

from lib import vf


def corrupt(rng, ep):
    k = rng.choice(["parse", "special"])
    if k == "parse":
        ep[k] = rng.choice([d for d in ("none", "skip", "skip-file", "table") if d != ep[k]])
    else:
        ep[k] = "none" if ep[k] == "skip-file" else "skip-file"
    return ep


def run(c):
    binary = vf.build("basics")
    c.model("text", "MC_Directive")
    if not c.quick:
        c.model("text", "MC_Directive", cfg="MC_Directive_deep.cfg")
    cfgs = ["Emit_Directive.cfg"] + ([] if c.quick else ["Emit_Directive_deep.cfg"])
    for cfg in cfgs:
        r = c.tlc("text", "MC_Directive", cfg=cfg, env={"EMIT": "1"}, heap="8g")
        cases = c.printed(r["out"], "CASE")
        path = c.path("cases.ndjson")
        with open(path, "w") as f:
            for case in cases:
                f.write(json.dumps(case) + "\n")
        c.replayed(f"comments of {cfg}", len(cases), c.drive(binary, ["directive-replay", path]),
                   distinct=len({json.dumps(k["text"]) for k in cases}))
    eps = c.drive(binary, ["directive-trace", c.pick(4000, 40000)])
    c.sample(*[e for e in eps if e["parse"] != "none"][:2])
    c.validate("text", "Trace_Directive", eps, "recorded comments", corrupt=corrupt)
    eps = c.drive(binary, ["directive-near", c.pick("some", "all")])
    c.validate("text", "Trace_Directive", eps, "comments one edit away from a directive", corrupt=corrupt)
