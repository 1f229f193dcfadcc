"""P23: candidate positions are checked before they are used."""
import kh, eng
from common import TRUSTED
TECHNIQUE = "path-sensitive interval/difference analysis of every position used on a candidate list or a choice vector"
ASSUMPTIONS = TRUSTED + ["fcitx5: cursorIndex/globalCursorIndex return -1 or a position in the list; keyListIndex returns -1 or a position"]


def run(P, rep, tier):
    rep.rule("every subscript of a state's choices and every call taking a candidate position gets 0 <= position < number of entries on all paths")
    rep.rule("the position remembered when opening a list is a position in the list it was opened from")
    facts = eng.show_states(P, rep, {"pos"})
    n = eng.drive(P, rep, {"pos"}, facts, sel=eng.find_sel_params(P, rep))
    rep.need("position obligations", 6)
    return {"abstract_steps": facts["steps"] + n}
