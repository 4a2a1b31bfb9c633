"""B05: what is to be left alone is left alone."""
from lib import rfmt


def run(c):
    rfmt.layout(c, "skip", c.pick(5000, 50000), "random programs that ask for things to be left alone")
    c.assumptions += rfmt.ASSUMPTIONS
