"""K02: a malformed message does not take others with it."""
from checks.K01 import corrupt, replay
from lib import vf


def run(c):
    binary = vf.build("codec")
    c.model("codec", "MC_Codec", cfg=None if c.quick else "MC_Codec_deep.cfg", timeout=850)
    replay(c, binary, "Emit_Codec.cfg" if c.quick else "Emit_Codec_deep.cfg")
    eps = c.drive(binary, ["trace-wild", c.pick(2000, 20000)])
    c.sample(*eps[:1])
    c.validate("codec", "Trace_Codec", eps, "malformed streams", corrupt=corrupt, known=True)
    c.assumptions += ["numbers in messages are whole, strings have no \\u escapes"]
