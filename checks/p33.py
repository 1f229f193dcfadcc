"""P33: choosing a candidate pins exactly that phrase."""
import gridchoice as g
from common import TRUSTED
TECHNIQUE = "abstract evaluation of the lattice operations over every small lattice shape with symbolic phrases and values, and path-sensitive tracking of what key handling asks of them"
ASSUMPTIONS = TRUSTED + ["lattice operations treat lattices larger than the evaluated ones (up to 9 readings, all phrase lengths) alike: their loops only depend on positions relative to the chosen one"]
NOTE = "Static: the source of each operation is evaluated abstractly for every lattice of 0 to 7 (thorough: 9) readings and every position, with phrases, readings and values symbolic and all undecided branches followed; larger lattices are covered by the assumption that the code treats positions uniformly. Key handling is analysed on all paths for compositions of up to 3 readings."


def run(P, rep, tier):
    sizes = [0, 1, 2, 3, 7] if tier == "quick" else list(range(8)) + [9]
    g.overlapping(P, rep, sizes)
    g.override(P, rep, sizes if tier != "quick" else [0, 1, 2, 3, 7])
    g.candidates(P, rep, sizes)
    g.node_ops(P, rep)
    g.keyhandling(P, rep)
    rep.need("positions examined", 30)
    rep.need("choices evaluated", 100)
    rep.need("candidate lists evaluated", 20)
    return {}
