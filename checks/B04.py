"""B04: the layout is the specified one."""
from lib import rfmt


def run(c):
    rfmt.replay(c, "layout", "small programs in all layouts")
    rfmt.layout(c, "plain", c.pick(4000, 40000), "random programs")
    rfmt.layout(c, "tidy", c.pick(3000, 40000), "random programs with comments")
    c.assumptions += rfmt.ASSUMPTIONS
