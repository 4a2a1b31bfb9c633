"""S04: the published schema accepts the configuration files air accepts."""
import json
import subprocess
import tomllib

from lib import air, vf

VALIDATE = """
import json, sys, jsonschema
schema = json.load(open(sys.argv[1]))
v = jsonschema.Draft202012Validator(schema)
for line in sys.stdin:
    print(json.dumps(v.is_valid(json.loads(line)["doc"])))
"""


def corrupt(rng, ep):
    ep["events"][-1]["accepted"] = not ep["events"][-1]["accepted"]
    return ep


def run(c):
    eps = air.configurations(c, c.pick(600, 8000))
    c.model("app", "MC_Air", cfg="MC_Air_config.cfg")
    docs = []
    for ep in eps:
        try:
            docs.append(json.dumps({"doc": tomllib.loads(ep["toml"])}, default=str))
        except tomllib.TOMLDecodeError:
            docs.append(None)
    text = "".join(d + "\n" for d in docs if d is not None)
    p = subprocess.run(["python3-vt", "-c", VALIDATE, f"{vf.REPO}/artifacts/air.schema.json"], input=text,
                       stdout=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0:
        raise vf.ToolError("the schema cannot be used")
    verdicts = iter(p.stdout.split())
    for ep, d in zip(eps, docs):
        ep["events"] = [{"op": "schema", "accepted": d is not None and next(verdicts) == "true"}]
    c.sample(*[{"toml": e["toml"], "accepted": e["events"][0]["accepted"]} for e in eps[::400]])
    c.validate("app", "Trace_Air", eps, "the schema's verdicts", corrupt=corrupt)
