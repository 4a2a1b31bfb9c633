"""U01: the grammar notation is read completely, or rejected at the right place."""
import glob
import json

from lib import vf


def corrupt(rng, ep):
    if ep["panic"]:
        return None
    g = ep["got"]
    if not g["ok"]:
        k = rng.choice(["line", "col", "kind"])
        if k == "kind":
            g["err"]["kind"] = "token" if g["err"]["kind"] != "token" else "end"
        else:
            g["err"]["loc"][k] += 1
        return ep
    if not g["nodes"]:
        return None
    n = rng.choice(g["nodes"])
    if rng.random() < 0.3:
        n["name"] = n["name"] + [65]
    else:
        r = n["rule"]
        n["rule"] = {"k": "opt", "rule": r} if r["k"] != "opt" else r["rule"]
    return ep


def run(c):
    binary = vf.build("ungrammar")
    c.model("ungrammar", "MC_Ungrammar", cfg=None if c.quick else "MC_Ungrammar_deep.cfg")
    c.model("ungrammar", "MC_UngrammarLex", cfg=None if c.quick else "MC_UngrammarLex_deep.cfg")
    for module, cfg in (("MC_Ungrammar", "Emit_Ungrammar.cfg"), ("MC_Ungrammar", "Emit_UngrammarAny.cfg"),
                        ("MC_UngrammarLex", "Emit_UngrammarLex.cfg")):
        r = c.tlc("ungrammar", module, cfg=cfg, env={"EMIT": "1"}, heap="8g")
        cases = c.printed(r["out"], "CASE")
        path = c.path("cases.ndjson")
        with open(path, "w") as f:
            for case in cases:
                f.write(json.dumps(case) + "\n")
        c.replayed(cfg, len(cases), c.drive(binary, ["replay", path]))
    eps = c.drive(binary, ["trace", c.pick(3000, 30000)])
    files = sorted(glob.glob("/repo/**/*.ungram", recursive=True))
    if files:
        eps += c.drive(binary, ["files", *files])
    c.sample(*[e for e in eps if not e["panic"] and e["got"]["ok"]][:2])
    c.validate("ungrammar", "Trace_Ungrammar", eps, "recorded readings", corrupt=corrupt, ncorrupt=20)
    c.assumptions += ["errors are classified by their message; nesting depth is limited by the stack, not explored"]
