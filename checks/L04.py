"""L04: what formatting does to a document."""
from lib import rlsp


def run(c):
    rlsp.server(c, "text", 4000, 60000, rlsp.spoil_edits)
    c.assumptions += ["how the text itself is formatted is decided by B01 to B11; here it is that of the formatter, called directly",
                      "line ends of documents that mix them, or whose kind a change changed, are left open"]
