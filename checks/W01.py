"""W01: which files a run selects."""
from lib import air


def run(c):
    air.runs(c, "select", c.pick(2400, 30000), "select")
