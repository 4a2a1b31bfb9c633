"""A01: air format writes what it says, where it may, and nothing else."""
from lib import air


def run(c):
    air.runs(c, "write", c.pick(2400, 30000), "write")
