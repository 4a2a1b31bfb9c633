"""L05: what formatting of a selection does to a document."""
from lib import rlsp


def run(c):
    rlsp.server(c, "range", 4000, 60000, rlsp.spoil_edits)
    c.assumptions += ["how the statements themselves are formatted is decided by B01 to B11; here it is that of the formatter, "
                      "called directly",
                      "no statement gets so wide that it is broken over lines, and none has strings with more than one line"]
