"""V04: the configuration that the server is given for a document is that of its language."""
from lib import code

spoil = code.spoil("got", lambda rng, v: [x + "?" if i == 0 else x for i, x in enumerate(v)])


def run(c):
    code.model(c, "ask")
    code.replay(c, "ask", "settings of documents of a language")
    code.traces(c, "configuration", 3000, 40000, spoil, "random sessions")
