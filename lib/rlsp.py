"""What the checks of the language server have in common."""
import json

from lib import vf

ASSUMPTIONS = [
    "the crates that the server is built on (tower-lsp, biome_line_index, dissimilar, tracing-subscriber and those of the "
    "formatter) are stand-ins, with which the repository's own tests of the server pass (see DESIGN.md, The server's stand-ins)",
]


def build():
    return vf.build("lsp", bin="lspd")


def cases(c, module, cfg, name):
    """Cases that the specification prints, in a file."""
    r = c.tlc("lsp", module, cfg=cfg, env={"EMIT": "1"}, workers=8, timeout=800)
    c.cov["states"] += r.get("distinct", 0)
    c.cov["transitions"] += r.get("generated", 0)
    found = c.printed(r["out"], "CASE")
    path = c.path(name)
    with open(path, "w") as f:
        for case in found:
            f.write(json.dumps(case) + "\n")
    return len(found), path


def traces(c, mode, n, shards=6):
    binary = build()
    return c.drive_shards(lambda k, shard: c.drive(binary, [mode, k, shard + 1], timeout=800), n, shards)


def tables(c):
    path = c.path("tables.json")
    with open(path, "w") as f:
        f.write(json.dumps(c.drive(build(), ["tables"])[0]))
    return path


def server(c, profile, quick, thorough, corrupt, part=None, what="random conversations"):
    """Conversations with the server, checked against Trace_Server."""
    binary = build()
    env = {"TABLES": tables(c), "PART": part or profile}
    n = c.pick(quick, thorough)
    # in rounds, as episodes are kept in memory
    for first in range(0, n, 12000):
        k = min(12000, n - first)
        eps = c.drive_shards(
            lambda m, shard: c.drive(binary, ["server", profile, m, 100 * (first // 12000) + shard + 1], timeout=800), k, 8)
        c.sample(*eps[:1])
        c.validate("lsp", "Trace_Server", eps, f"{what} ({profile})", env=env, corrupt=corrupt if first == 0 else None,
                   shards=8, heap="2g", timeout=840, key="bursts")
    c.assumptions += [a for a in ASSUMPTIONS if a not in c.assumptions]


def server_replay(c, cfg, what):
    """Every behaviour of the model of folders and configurations, in the server."""
    n, path = cases(c, "MC_Server", cfg, "server-cases.ndjson")
    binary = build()
    with open(path) as f:
        lines = f.readlines()
    found = []

    def part(k, shard):
        mine = c.path(f"server-cases-{shard}.ndjson")
        with open(mine, "w") as f:
            f.writelines(lines[shard::8])
        return c.drive(binary, ["server-replay", mine], timeout=800)

    found += c.drive_shards(part, 8, 8)
    c.replayed(what, n, found)


def spoil_edits(rng, ep):
    """One of the server's edits gets another character."""
    outs = [e for b in ep["bursts"] for o in b["outs"] if o["kind"] == "edits" for e in o["edits"]]
    if not outs:
        return None
    rng.choice(outs)["text"].append(120)
    return ep
