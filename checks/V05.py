"""V05: what the server tells of files is what their editors do."""
from lib import code


def other(rng, editors):
    e = rng.choice(editors)
    k = rng.choice(["insertSpaces", "tabSize", "indentSize"])
    e[k] = "true" if e[k] == "false" else "false" if e[k] == "true" else e[k] + "0"
    return editors


def run(c):
    code.model(c, "sync")
    code.replay(c, "sync", "files that the server tells of, and editors that are looked at")
    code.traces(c, "sync", 3000, 40000, code.spoil("editors", other), "random sessions")
