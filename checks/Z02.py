"""Z02: downloads of air by the Zed extension."""
from checks import Z01


def run(c):
    Z01.run(c, "download")
