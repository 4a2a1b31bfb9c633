"""S02: lists of function names behave as sets."""
from lib import vf


def corrupt(rng, ep):
    e = rng.choice(ep["events"])
    if e["op"] in ("new", "merge"):
        e["slice"] = e["slice"] + [21]
        return ep
    if e["op"] == "contains":
        i = rng.randrange(len(e["ret"]))
        e["ret"][i] = not e["ret"][i]
        return ep
    if e["op"] == "equal":
        e["ret"] = not e["ret"]
        return ep
    if e["op"] == "show" and e["ret"]:
        last = e["ret"][-1]
        e["ret"] = [x for x in e["ret"] if x != last]
        return ep
    return None


def run(c):
    binary = vf.build("basics")
    c.model("settings", "MC_NameList")
    eps = c.drive(binary, ["names-trace", c.pick(3000, 30000)])
    eps += c.drive(vf.build("workspace"), ["table-builtin"])
    c.sample(*eps[:2])
    c.validate("settings", "Trace_NameList", eps, "recorded name lists", corrupt=corrupt)
