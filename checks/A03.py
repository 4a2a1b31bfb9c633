"""A03: air format from stdin to stdout."""
from lib import air


def run(c):
    air.runs(c, "stdin", c.pick(2400, 30000), "stdin")
