"""K01: messages are framed on the wire, whatever chunks they arrive in."""
import json

from lib import vf


def corrupt(rng, ep):
    evs = [e for e in ep["events"] if e["op"] in ("ask", "encode")]
    if not evs:
        return None
    e = rng.choice(evs)
    if e["op"] == "encode":
        e["bytes"] = e["bytes"][:-1]
    else:
        k = rng.choice(["kind", "left"])
        if k == "left":
            e["left"] += 1
        elif e["kind"] == "msg":
            e["msg"] = e["msg"][:-1]
        else:
            e["kind"] = "msg"
    return ep


def replay(c, binary, cfg):
    r = c.tlc("codec", "MC_Codec", cfg=cfg, env={"EMIT": "1"})
    cases = c.printed(r["out"], "CASE")
    path = c.path("cases.ndjson")
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    wrong = c.drive(binary, ["replay", path], timeout=600)
    c.replayed(f"streams of {cfg}, cut in every way into up to 3 chunks and into bytes", len(cases),
               [w for w in wrong if "events" not in w])
    # What went wrong in the others may be known.
    wrong = [w for w in wrong if "events" in w]
    if wrong:
        c.validate("codec", "Trace_Codec", wrong, "streams that are not delivered as specified", known=True)


def run(c):
    binary = vf.build("codec")
    c.model("codec", "MC_Codec", cfg="MC_Codec_good.cfg")
    replay(c, binary, "Emit_Codec_good.cfg")
    c.replayed("long messages, and a hundred thousand empty ones", 12, c.drive(binary, ["many"]))
    eps = c.drive(binary, ["trace", c.pick(1500, 15000)])
    eps += c.drive(binary, ["encode", c.pick(600, 6000)])
    c.sample(*eps[:1])
    c.validate("codec", "Trace_Codec", eps, "well-formed streams", corrupt=corrupt, known=True)
    c.assumptions += ["numbers in messages are whole, strings have no \\u escapes"]
