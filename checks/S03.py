"""S03: what a configuration file may say, and what it means."""
from lib import air


def run(c):
    eps = air.configurations(c, c.pick(600, 8000))
    c.model("app", "MC_Air", cfg="MC_Air_config.cfg")
    c.sample(*[{"toml": e["toml"], "exit": e["events"][0]["got"]["exit"]} for e in eps[::400]])
    c.validate("app", "Trace_Air", eps, "configuration files", corrupt=air.corrupt)
