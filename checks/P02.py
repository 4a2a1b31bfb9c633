"""P02: the built-in exclusions and inclusions, with or without a configuration file."""
from checks.P01 import corrupt
from lib import vf


def run(c):
    binary = vf.build("workspace")
    c.model("files", "MC_Patterns")
    eps = c.drive(binary, ["patterns-builtin", c.pick(1500, 15000)])
    c.sample(*eps[:2])
    c.validate("files", "Trace_Patterns", eps, "built-in patterns", corrupt=corrupt)
    eps = c.drive(binary, ["patterns-near", "all"])
    c.validate("files", "Trace_Patterns", eps, "names one edit away from the built-in ones", corrupt=corrupt)
