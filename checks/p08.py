"""P08: what is shown is always computed from the current readings."""
import kh
from common import TRUSTED
TECHNIQUE = "path-sensitive typestate analysis (grid edited => stored sentence stale until recomputed) over every public key-handling entry point"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("after a grid mutator ran on the composition, the stored sentence is not read until it is assigned the result of walking that same grid")
    rep.rule("at every exit of a public entry point the stored sentence was computed from the grid as it then is")
    st = kh.analyse(P, rep, {"stale"})
    rep.need("obligations stale", 6)
    rep.need("entry points", 20)
    return st
