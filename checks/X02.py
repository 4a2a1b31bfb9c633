"""X02: file operations of the build tasks do what they say, or say what failed."""
from lib import vf


def corrupt(rng, ep):
    if not ep["events"]:
        return None
    e = rng.choice(ep["events"])
    k = rng.choice(["ok", "named", "tree", "kept"])
    if k == "tree":
        if not e["tree"]:
            return None
        e["tree"] = [n for n in e["tree"] if n != e["tree"][-1]]
    else:
        e[k] = not e[k]
    return ep


def run(c):
    binary = vf.build("glue")
    c.model("glue", "MC_Glue", cfg="MC_GlueTree.cfg")
    eps = c.drive_contained(binary, ["files", c.pick(2500, 25000)])
    c.sample(*eps[:2])
    c.validate("glue", "Trace_Glue", eps, "file operations", corrupt=corrupt)
    c.assumptions += ["Unix; nothing else changes the files at the same time"]
