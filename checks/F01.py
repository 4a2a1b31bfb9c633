"""F01: paths are made absolute and shown relative without changing what they name."""
import json
import os
import shutil

from lib import vf


def comps(path):
    return [list(p.encode()) for p in path.split("/") if p]


def corrupt(rng, ep):
    what = rng.choice(["normal", "relative", "r", "again"])
    if ep["panic"] or (what == "relative" and ep["lossy"]):
        return None
    if what == "r":
        ep["r"] = not ep["r"]
    else:
        v = ep[what]["comps"]
        if v:
            v.pop()
        else:
            v.append([97])
    return ep


def run(c):
    binary = vf.build("basics")
    c.model("text", "MC_Paths")
    base = c.path("cwd")
    dirs = ["/", "/tmp", base, os.path.join(base, "a"), os.path.join(base, "a.R", "b.R")]
    for d in dirs[2:]:
        os.makedirs(d, exist_ok=True)
    try:
        cwds = c.path("cwds.ndjson")
        with open(cwds, "w") as f:
            for d in dirs:
                f.write(json.dumps({"cwd": comps(d)}) + "\n")
        r = c.tlc("text", "MC_Paths", cfg="Emit_Paths.cfg", env={"EMIT": "1", "CWDS": cwds})
        cases = c.printed(r["out"], "CASE")
        mism, eps = [], []
        for d in dirs:
            mine = [k for k in cases if k["cwd"] == comps(d)]
            path = c.path("cases.ndjson")
            with open(path, "w") as f:
                for case in mine:
                    f.write(json.dumps(case) + "\n")
            mism += c.drive(binary, ["paths-replay", path], cwd=d)
            eps += c.drive(binary, ["paths-trace", c.pick(1500, 12000)], cwd=d, env={"SALT": d})
        c.replayed("paths of up to 4 components in 5 working directories", len(cases), mism)
        c.sample(*eps[:2])
        c.validate("text", "Trace_Paths", eps, "recorded paths", corrupt=corrupt)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    c.assumptions += ["Unix paths"]
