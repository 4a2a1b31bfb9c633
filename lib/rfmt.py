"""What the checks of the formatter and the parser have in common."""
import glob
import json
import os
import threading

from lib import vf

ASSUMPTIONS = [
    "the crates that the formatter is built on (biome_formatter, biome_rowan, tree-sitter and its R grammar) are "
    "stand-ins, which reproduce every snapshot of the repository (see DESIGN.md, The formatter's stand-ins)",
]


def build():
    return vf.build("r", bin="r")


def programs(c, kind, n, shards=6):
    """Random programs of a kind and what became of them."""
    binary = build()
    return c.drive_shards(lambda k, shard: c.drive(binary, ["gen", kind, k, shard + 1], timeout=800), n, shards)


def replay(c, what, name):
    """The small programs of MC_RFormat, as the specification says, given to the code; and its invariants."""
    binary = build()
    cfg = c.pick("MC_RFormat.cfg", "MC_RFormat_deep.cfg")
    parts = 8
    if c.quick:
        keep = range(0, parts, 2) if what == "layout" else range(parts)
    else:
        keep = range(parts)
    out = [None] * parts

    def part(k):
        try:
            env = {"EMIT": what, "PARTS": parts, "PART": k}
            r = c.tlc("format", "MC_RFormat", cfg=cfg, env=env, timeout=840, heap="3g")
            cases = c.printed(r["out"], "CASE")
            path = c.path(f"cases-{what}-{k}.ndjson")
            with open(path, "w") as f:
                for case in cases:
                    f.write(json.dumps(case) + "\n")
            out[k] = (r, len(cases), c.drive(binary, ["replay", path], timeout=840))
        except BaseException as e:  # noqa: BLE001
            out[k] = e

    threads = [threading.Thread(target=part, args=(k,)) for k in keep]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    cases, wrong = 0, []
    for k in keep:
        if isinstance(out[k], BaseException):
            raise out[k]
        r, n, bad = out[k]
        c.cov["states"] += r.get("distinct", 0)
        c.cov["transitions"] += r.get("generated", 0)
        cases += n
        wrong += bad
    c.cov["models"].append({"module": "MC_RFormat", "cfg": cfg, "parts": len(list(keep)), "of": parts})
    c.replayed(name, cases, wrong)


def line(rng, ep):
    """One line of the output is another one."""
    out = ep["out"]
    if len(out) < 2:
        return None
    i = rng.randrange(len(out) - 1)
    how = rng.choice(["indent", "text", "join", "blank"])
    if how == "indent":
        out[i] = " " + out[i]
    elif how == "text":
        out[i] += "x"
    elif how == "join" and len(out) > 2:
        out[i:i + 2] = [out[i] + " " + out[i + 1]]
    else:
        out.insert(i, "")
    return ep


def layout(c, kind, n, what, corrupt=line):
    eps = programs(c, kind, n)
    c.sample(*[{"text": e["text"], "out": "\n".join(e["out"])} for e in eps[:2]])
    c.validate("format", "Trace_RFormat", eps, what, corrupt=corrupt, key="out", shards=8, heap="2g", timeout=840)
    return eps


def program(c, eps, which, what, corrupt):
    c.validate("format", "Trace_Program", eps, what, env={"WHAT": which}, corrupt=corrupt, key="out", shards=8, heap="2g",
               timeout=840)


def nodes(tree, found):
    """All nodes of a tree that `found` wants."""
    out = [tree] if found(tree) else []
    for n in tree["c"]:
        out += nodes(n, found)
    return out


SPECS = "/repo/crates/air_r_formatter/tests/specs/r"

# Programs of which it is known that they are not kept (see known_findings.json).
HARD = [
    ("a comment between a function and its arguments, in a body that gets braces",
     "f(function(x) y::col # c2\n# c3\n('t'))\n"),
    ("code that is left alone, and depends on parentheses, in a body that gets braces",
     "f(\n  function() b <-\n    # fmt: skip\n    (x)\n    > y,\n  zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz,"
     " yyyyyyyyyyyyyyyyyyyyyyyyyyy\n)\n"),
]


def given(c, which, what, corrupt):
    """The programs of the repository's own tests (as inputs only), and what became of them."""
    binary = build()
    widths = c.pick((40, 80), (12, 25, 40, 80, 120))
    cases = []

    def case(name, text, style, width, persistent):
        toml = f'[format]\nline-width = {width}\nassignment-style = "{style}"\npersistent-line-breaks = {persistent}\n'
        cases.append({"name": f"{name} {style} {width} {persistent}", "style": style, "text": text, "toml": toml})

    for path in sorted(glob.glob(SPECS + "/**/*.R", recursive=True)):
        name = os.path.relpath(path, SPECS)
        with open(path, newline="") as f:
            text = f.read()
        for width in widths:
            for persistent in ("true", "false"):
                case(name, text, "preserve", width, persistent)
                # R and its grammar for tree-sitter disagree on `a = b <- 1`
                if "assignment_equal" not in name:
                    case(name, text, "arrow", width, persistent)
    if which == "program":
        for name, text in HARD:
            case(name, text, "preserve", 80, "true")
    path = c.path("given.ndjson")
    with open(path, "w") as f:
        for one in cases:
            f.write(json.dumps(one) + "\n")
    eps = c.drive(binary, ["given", path], timeout=600)
    c.validate("format", "Trace_Given", eps, what, env={"WHAT": which}, corrupt=corrupt, shards=8, heap="2g", timeout=840)
