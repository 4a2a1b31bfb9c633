"""What the checks of the `air` command have in common."""
import copy
import os

from lib import vf

BIN = os.path.join(vf.BUILD, "target", "app", "debug", "air")


def corrupt(rng, ep):
    """Alters one observation of one run."""
    runs = [e for e in ep["events"] if e["op"] == "run"]
    if not runs:
        return None
    e = rng.choice(runs)
    g = e["got"]
    kinds = ["exit", "hard"]
    if not g["hard"]:
        if not e["stdin"]:
            kinds += ["touch", "list"]
            if g["errors"]:
                kinds += ["error"] * 2
            if g["changed"]:
                kinds += ["change", "text", "unsaid"]
            if g["listed"]:
                kinds += ["unlist"] * 2
        if e["stdin"]:
            kinds += ["out"] * 3
    k = rng.choice(kinds)
    here = [n[0] for n in ep["nodes"] if n[1]["kind"] == "file"]
    if k == "exit":
        g["exit"] = {0: 1, 1: 255, 255: 0}.get(g["exit"], 0)
    elif k == "hard":
        if g["exit"] == 255 and not g["hard"] and (e["stdin"] or not g["errors"]):
            return None
        g["hard"] = not g["hard"]
        if g["hard"] and g["exit"] == 255:
            return None
    elif k in ("touch", "list"):
        field = "touched" if k == "touch" else "listed"
        more = [p for p in here if p not in g[field]]
        if not more:
            return None
        g[field].append(rng.choice(more))
    elif k == "error":
        x = rng.choice(g["errors"])
        x["kind"] = "write" if x["kind"] != "write" else "read"
    elif k == "change":
        g["changed"].remove(rng.choice(g["changed"]))
    elif k == "unsaid":
        c = rng.choice(g["changed"])
        g["changed"].remove(c)
        g["touched"] = [p for p in g["touched"] if p != c[0]]
    elif k == "text":
        c = rng.choice(g["changed"])
        c[1]["lines"][0]["e"] = "crlf" if c[1]["lines"][0]["e"] == "lf" else "lf"
    elif k == "unlist":
        x = rng.choice(g["listed"])
        g["listed"] = [p for p in g["listed"] if p != x]
    elif k == "out":
        g["out"] = {"utf8": True, "lines": g["out"]["lines"] + [{"h": [], "t": "more", "e": "lf"}]}
    return ep


def runs(c, only, n, inv):
    """Model, then recorded runs."""
    driver = vf.build("app")
    c.model("app", "MC_Air", cfg=f"MC_Air_{inv}{c.pick('', '_deep')}.cfg")
    eps = c.drive_shards(
        lambda k, shard: c.drive_contained(driver, ["runs", BIN, only, k, shard], files=(BIN,), timeout=700), n)
    c.sample(*[{"said": e["said"], "mode": e["mode"], "exit": e["got"]["exit"]} for ep in eps[:3] for e in ep["events"] if e["op"] == "run"])
    c.validate("app", "Trace_Air", eps, f"recorded runs ({only})", corrupt=corrupt, known=True, timeout=700)
    c.assumptions += [
        "the formatter is a stand-in whose result says which options it was given (see DESIGN.md, The toy language)",
    ]


def configurations(c, n):
    driver = vf.build("app")
    return c.drive_contained(driver, ["toml", BIN, n], files=(BIN,), timeout=700)
