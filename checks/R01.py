"""R01: settings are resolved to the closest enclosing directory."""
import copy

from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("resolve", "add", "remove", "matches", "fallback", "len")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] in ("fallback", "len"):
        e["ret"] += 1
    elif e["op"] in ("add", "remove"):
        e["ret"] = [] if e["ret"] else [5]
    else:
        e["ret"] = e["ret"][:-1] if e["ret"] else [{"path": [0], "value": 901}]
    return ep


def run(c):
    binary = vf.build("workspace")
    c.model("resolver", "MC_Resolver")
    if not c.quick:
        c.model("resolver", "MC_Resolver", cfg="MC_Resolver_deep.cfg")
    r = c.tlc("resolver", "MC_Resolver", cfg="Emit_Resolver.cfg", env={"EMIT": "1"})
    cases = c.printed(r["out"], "CASE")
    path = c.path("cases.ndjson")
    import json
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    mism = c.drive(binary, ["resolver-replay", path])
    c.replayed("resolver states", len(cases), mism)
    eps = c.drive(binary, ["resolver-trace", c.pick(1500, 12000)])
    c.sample(*copy.deepcopy(eps[:2]))
    c.validate("resolver", "Trace_Resolver", eps, "resolver histories", corrupt=corrupt)
    c.assumptions += ["path components are compared as the standard library does on Unix"]
