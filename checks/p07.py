"""P07: committed or discarded text leaves nothing composed behind."""
import kh, eng
from common import TRUSTED
TECHNIQUE = "path-sensitive must-analysis (composition and pending syllable empty at every exit after a commit/discard) over key handling and the engine"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("on every path that enters a committing, empty, discarding, number, feature or plain-associated state, the grid and the pending syllable are empty when the public entry point returns, and before anything is composed again")
    rep.rule("the engine itself enters such a state only after resetting key handling; reset() always does and settles in the empty state")
    st = kh.analyse(P, rep, {"leftover"})
    rep.need("obligations leftover", 10)
    rep.need("entry points", 20)
    facts = eng.show_states(P, rep, set())
    st["abstract_steps_engine"] = eng.drive(P, rep, {"leftover"}, facts) + eng.drive(P, rep, {"leftover"}, facts, entry="reset")
    rep.need("state kinds reset", 10)
    return st
