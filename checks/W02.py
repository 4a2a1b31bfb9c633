"""W02: which configuration governs a file."""
from lib import air


def run(c):
    air.runs(c, "config", c.pick(2400, 30000), "config")
