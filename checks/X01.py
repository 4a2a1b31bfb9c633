"""X01: working directory and environment are restored, commands run in them as written."""
from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("pushd", "pushenv", "leave", "unwind", "run")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] == "run" and rng.random() < 0.7:
        k = rng.choice(["args", "cwd", "stdin", "ok"])
        if k == "ok":
            e["ok"], e["ret"] = not e["ok"], [33]
        else:
            e["seen"][k].append([33] if k == "args" else "x" if k == "cwd" else 33)
    elif rng.random() < 0.5:
        e["now"]["cwd"].append("x")
    else:
        e["now"]["env"]["A"] = [] if e["now"]["env"]["A"] else ["x"]
    return ep


def run(c):
    binary = vf.build("glue")
    c.model("glue", "MC_Glue", cfg="MC_Glue.cfg" if c.quick else "MC_Glue_deep.cfg")
    c.model("glue", "MC_Glue", cfg="MC_GlueText.cfg")
    eps = c.drive_contained(binary, ["scopes", c.pick(1200, 10000)])
    c.sample(*eps[:2])
    c.validate("glue", "Trace_Glue", eps, "scopes and commands", corrupt=corrupt)
    eps = c.drive_contained(binary, ["reformat", c.pick(300, 3000)])
    c.validate("glue", "Trace_Glue", eps, "generated code", corrupt=lambda rng, ep: flip(rng, ep))
    c.assumptions += ["guards are dropped in the reverse order of their creation", "Unix"]


def flip(rng, ep):
    e = ep["events"][0]
    k = rng.choice(["ok", "restored", "ret"])
    if k == "ret":
        if not e["ok"]:
            return None
        e["ret"] = e["ret"][1:]
    else:
        e[k] = not e[k]
        if k == "ok" and e[k]:
            e["ret"] = []
    return ep
