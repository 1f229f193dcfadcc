"""P22: keys the input method does not want are passed through untouched."""
import kh, eng
from common import TRUSTED
TECHNIQUE = "path-sensitive effect analysis of keyEvent and of every boolean key-handling entry point"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("every key-event path with an effect has excluded releases, events outside a context, Alt, Super and Caps Lock; every path without effect met one of them")
    rep.rule("the key is accepted exactly when composition consumed it or a list is on screen")
    rep.rule("a path on which key handling may return false changed neither grid nor syllable and entered no state")
    st = kh.analyse(P, rep, {"unhandled"})
    rep.need("unhandled exits", 2)
    facts = eng.show_states(P, rep, set())
    st["abstract_steps_engine"] = eng.drive(P, rep, {"pass"}, facts)
    rep.need("state kinds driven", 10)
    return st
