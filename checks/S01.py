"""S01: settings values keep to their documented ranges and names in every notation."""
from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("width", "name", "range", "default")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] in ("width", "name"):
        if e["accepted"] and e["op"] == "width":
            e["forms"] = [e["n"], e["n"] + 1]
        elif e["accepted"]:
            e["shown"] += "x"
        elif e["op"] == "width":
            e["accepted"], e["forms"] = True, [e["n"]]
        else:
            e["accepted"], e["shown"], e["back"] = True, e["name"], e["name"]
    elif e["op"] == "range":
        e["accepted"] = [[e["accepted"][0][0], e["accepted"][0][1] + 1]]
    else:
        e["value"] = 81 if isinstance(e["value"], int) else "other"
    return ep


def run(c):
    binary = vf.build("basics")
    c.model("settings", "MC_SettingValues")
    eps = c.drive(binary, ["values-trace", c.pick(1500, 15000)])
    eps += c.drive(vf.build("workspace"), ["line-ending-options"])
    c.sample(*eps[:2])
    c.validate("settings", "Trace_SettingValues", eps, "configured values", corrupt=corrupt)
