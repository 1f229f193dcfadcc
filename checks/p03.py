"""P03: while a candidate list is on screen, keys go to it."""
import eng
from common import TRUSTED
TECHNIQUE = "path-sensitive effect analysis of keyEvent, once per concrete state class, against the set of classes whose entry installs a list"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("for every class whose entry installs a candidate list, every key event with an effect absorbs the key and offers it to the list before composition")
    rep.rule("for every other class no candidate list is consulted")
    rep.rule("after the list changed and a list is still shown, the panel is refreshed")
    facts = eng.show_states(P, rep, set())
    n = eng.drive(P, rep, {"route"}, facts)
    rep.need("state kinds driven", 10)
    rep.samples["kinds with a list"] = sorted(facts["listing"])
    rep.need("kinds with a list", 5)
    return {"abstract_steps": facts["steps"] + n}
