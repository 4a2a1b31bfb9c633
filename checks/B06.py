"""B06: tables."""
from lib import rfmt


def run(c):
    rfmt.layout(c, "table", c.pick(5000, 50000), "random programs with tables")
    c.assumptions += rfmt.ASSUMPTIONS
