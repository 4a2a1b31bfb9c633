"""A02: air format --check changes nothing and tells what would change."""
from lib import air


def run(c):
    air.runs(c, "check", c.pick(2400, 30000), "check")
