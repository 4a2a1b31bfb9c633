"""Z01: which air the Zed extension starts, and how."""
from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("ask", "options")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] == "options":
        e["options"] = "7"
        return ep
    k = rng.choice(["command", "args", "calls", "kind", "disk"])
    if k == "command" and e["kind"] == "command":
        e["command"] += "x"
    elif k == "args" and e["kind"] == "command":
        e["args"].append("x")
    elif k == "calls" and e["calls"]:
        e["calls"].pop()
    elif k == "kind":
        e["kind"] = "error" if e["kind"] == "command" else "command"
        e["command"] = e["command"] or "air"
    elif k == "disk" and e["disk"]["dirs"]:
        e["disk"]["dirs"].pop()
    else:
        return None
    return ep


def run(c, focus="order"):
    binary = vf.build("zed")
    c.model("zed", "MC_Zed", cfg=None if c.quick else "MC_Zed_deep.cfg")
    eps = c.drive_contained(binary, [c.pick(2500, 25000), focus])
    c.sample(*eps[:2])
    c.validate("zed", "Trace_Zed", eps, "sessions", corrupt=corrupt)
    c.assumptions += ["Zed is played by a stand-in with the 0.2.0 interface; downloads are as honest as it makes them"]
