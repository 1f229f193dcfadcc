"""P02: every input state is shown and committed as its kind requires."""
import eng
from common import TRUSTED
TECHNIQUE = "abstract interpretation of state entry for every concrete state class, comparing the recorded panel effects with the class's own fields"
ASSUMPTIONS = TRUSTED


def run(P, rep, tier):
    rep.rule("entering any state resets the panel first, then shows the pre-edit / tooltip / candidate list computed from that state's own fields")
    rep.rule("every entry of a shown list performs the choice at its own position")
    rep.rule("commitString is reached only for a committing state (its own text, once) or an empty state following a non-empty one (that text, once)")
    rep.rule("losing focus or an application reset never commits")
    facts = eng.show_states(P, rep, {"show"})
    n = eng.drive(P, rep, {"show"}, facts, entry="reset")
    rep.need("state kinds shown", 10)
    rep.need("silent resets", 10)
    return {"abstract_steps": facts["steps"] + n}
