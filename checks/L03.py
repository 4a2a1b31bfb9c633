"""L03: which configuration a document is formatted with."""
from lib import rlsp


def run(c):
    c.model("lsp", "MC_Server", cfg=c.pick("MC_Server.cfg", "MC_Server_deep.cfg"), timeout=800)
    rlsp.server_replay(c, c.pick("Emit_Server.cfg", "Emit_Server_deep.cfg"), "folders and configurations that come and go")
    rlsp.server_replay(c, c.pick("Emit_Told.cfg", "Emit_Told_deep.cfg"), "news for one folder of several")
    rlsp.server(c, "settings", 6000, 40000, rlsp.spoil_edits)
