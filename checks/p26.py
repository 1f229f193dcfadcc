"""P26: backing out of a list restores what was shown before."""
import kh, eng
from common import TRUSTED
TECHNIQUE = "abstract interpretation of copy constructors and of the cancel paths, comparing the re-entered object field by field with the kept one"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("every user-written copy constructor of a state yields an object whose every field equals the source's (owned states: copied recursively)")
    rep.rule("Esc in a character-information, dictionary or associated-phrase list enters one state: a copy of the kept one; for a candidate list the remembered position is highlighted")
    rep.rule("those lists are opened only with a copy of the current state, of a class their copies keep, and with the highlighted position")
    st = kh.analyse(P, rep, {"kept"})
    eng.copies(P, rep, {"back"})
    facts = eng.show_states(P, rep, set())
    st["abstract_steps_engine"] = eng.drive(P, rep, {"back"}, facts, sel=eng.find_sel_params(P, rep))
    rep.need("copy constructors", 3)
    rep.need("lists backed out of", 3)
    rep.need("lists opened", 2)
    return st
