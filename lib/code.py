"""What the checks of the VS Code extension have in common."""
import json
import os
import shutil
import tempfile

from lib import vf

DRIVER = os.path.join(vf.VERIF, "harness", "code", "driver.js")
ASSUMPTIONS = [
    "the editor, the language client and the packages that the extension is built on are stand-ins (harness/code/stubs.js; see "
    "DESIGN.md, The editor's stand-ins); the extension itself is bundled from its sources as they are",
]


def drive(c, args, timeout=600):
    scratch = tempfile.mkdtemp(prefix="vf-code-")
    try:
        env = {k: "" for k in ("CI", "NODE_OPTIONS", "NODE_PATH")}
        return c.drive(shutil.which("node") or "/usr/bin/node", ["--stack-size=4000", DRIVER, vf.REPO, scratch, *args], timeout=timeout, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)



def replay(c, part, what):
    """Every behaviour of the model of one part, in the extension."""
    r = c.tlc("code", "MC_Extension", cfg=c.pick(f"Emit_{part}.cfg", f"Emit_{part}_deep.cfg"), env={"EMIT": "1"}, workers=8, timeout=800)
    c.cov["states"] += r.get("distinct", 0)
    c.cov["transitions"] += r.get("generated", 0)
    cases = c.printed(r["out"], "CASE")
    if not cases:
        raise vf.ToolError(f"{part}: no cases")

    def some(n, shard):
        path = c.path(f"code-{part}-{shard}.ndjson")
        with open(path, "w") as f:
            for case in cases[shard::8]:
                f.write(json.dumps(case) + "\n")
        return drive(c, ["replay", path])

    c.replayed(what, len(cases), c.drive_shards(some, 8, 8))


def traces(c, profile, quick, thorough, corrupt, what):
    eps = c.drive_shards(lambda n, shard: drive(c, ["traces", profile, n, shard + 1]), c.pick(quick, thorough), 8)
    c.sample(*eps[:1])
    c.validate("code", "Trace_Extension", eps, what, env={"PART": profile}, corrupt=corrupt, shards=8, heap="2g", timeout=840)
    c.assumptions += [a for a in ASSUMPTIONS if a not in c.assumptions]


def model(c, part):
    c.model("code", "MC_Extension", cfg=c.pick(f"MC_{part}.cfg", f"MC_{part}_deep.cfg"), timeout=840)


def spoil(field, change):
    """Alters what was seen at one step, of those that have `field` with something in it."""

    def corrupt(rng, ep):
        steps = [e for e in ep["events"] if e["out"].get(field)]
        if not steps:
            return None
        e = rng.choice(steps)
        e["out"][field] = change(rng, e["out"][field])
        return ep

    return corrupt
