"""P28: the sentence shown is the best way through the lattice."""
import gridwalk as g
from program import walk
from common import TRUSTED
TECHNIQUE = "abstract evaluation of the lattice walk over every small lattice with symbolic scores: all outcomes of its comparisons are followed and the comparisons made must imply the result's optimality by transitivity"
ASSUMPTIONS = TRUSTED + ["scores are finite (no NaN or infinity) and sums of them are exact", "every reading has a phrase of its own (insertReading requires it, see P19)"]
NOTE = "Static: the walk's source is evaluated abstractly for every lattice of up to 3 (thorough: 4) readings with any set of longer phrases and for selected larger ones, among them two phrases of any two lengths after each other; scores stay symbolic. Larger lattices are covered by the assumption that the algorithm is uniform in the size."


def only(n, keep):
    """A lattice of n readings whose only longer phrases are these."""
    return (n, tuple((i, l) for i in range(n) for l in range(2, n - i + 1) if (i, l) not in keep))


def long_pairs(P):
    """Two phrases of any lengths directly after each other, with a reading between, or crossing."""
    d = P.globals.get("G:Formosa::Gramambular2::ReadingGrid::kMaximumSpanLength")
    m = next((int(x["v"]) for x in walk(d and d.get("init")) if "v" in x), 6)
    out = []
    for a in range(1, m + 1):
        for b in range(1, m + 1):
            if max(a, b) > 2:
                out.append(only(a + b, ((0, a), (a, b))))
    for a in range(3, m + 1):
        out.append(only(2 * a + 1, ((0, a), (a + 1, a))))
        out.append(only(2 * a - 1, ((0, a), (a - 1, a))))
    return out


def run(P, rep, tier):
    g.walk(P, rep, long_pairs(P) + (g.shapes(5, 3) if tier == "quick" else g.shapes(6, 4) + [(5, ((0, 5), (0, 4), (1, 4))), (5, ((0, 2), (1, 2), (2, 2), (3, 2))), (6, tuple((i, l) for i in range(6) for l in range(3, 7)))]))
    rep.need("lattices evaluated", 10)
    rep.need("sentences judged", 30)
    return {}
