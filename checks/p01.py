"""P01: a replaced input state is never used again."""
import kh, eng
from common import TRUSTED
TECHNIQUE = "path-sensitive typestate analysis (owner replaced => object dead) over the inlined call graph of key handling and the engine"
ASSUMPTIONS = TRUSTED + ["replacing the current state frees it and the list and items shown for it, immediately"]


def run(P, rep, tier):
    rep.rule("after a state callback ran, no path reads, writes or follows anything reached from the state parameter (key handling)")
    rep.rule("after the engine entered a state, no path touches the old state object, the old candidate list or the item being selected")
    rep.rule("a callback held by an object the first state change frees is not called again afterwards")
    rep.rule("no path follows a null or moved-from state pointer")
    late = set()
    st = kh.analyse(P, rep, {"dead"}, late=late)
    rep.need("state entries", 20)
    rep.need("entry points", 20)
    facts = eng.show_states(P, rep, {"dead"}, late=frozenset(late))
    n = eng.drive(P, rep, {"dead"}, facts, late=frozenset(late))
    n += eng.drive(P, rep, {"dead"}, facts, entry="reset")
    rep.need("state kinds driven", 10)
    st["abstract_steps_engine"] = n
    return st
