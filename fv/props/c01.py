"""Every cell is exactly its site's nearest-site region."""
from .. import gens, oracles
from ..diag import Frame, Diagram, run, reference, classify
from ..runner import Leg

ASSUMPTIONS = ["cells are compared to exact rational clipping up to 1e-8 of the polygon's size",
               "inputs whose exact diagram has an edge shorter than 1e-5 of the size are excluded (counted as rejected)",
               "noisy inputs have 12 decimal digits and noise of 1e-12 and more; their cells are compared up to 1e-7 of the size"]


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    D = Diagram(run(fr), fr)
    oracles.check_cells(D, cells)
    lab = classify(fr, cells)
    return {"nontrivial": len(fr.sites) >= 2, "labels": lab}


def check_noisy(case):
    fr = Frame(case)
    D = Diagram(run(fr), fr)
    oracles.check_cells_tolerant(D)
    return {"nontrivial": len(fr.sites) >= 3, "labels": ["n=%d" % len(fr.sites), "num-" + fr.kind]}


RULE = "sites and polygon drawn together, at least two sites (so that a border exists)"
LEGS = [
    Leg("small", gens.diagrams(1, 8), check, 2600, 60000, RULE),
    Leg("degenerate", gens.diagrams(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2200, 60000, RULE),
    Leg("medium", gens.diagrams(12, 40, Rs=(12, 40, 100, 1000)), check, 200, 4000, RULE),
    Leg("noisy", gens.noisy(2, 12), check_noisy, 3000, 80000, "at least three sites, nearly in special position"),
    Leg("large", gens.diagrams(90, 220, Rs=(20, 40, 100, 300, 1000)), check, 80, 1500, RULE),
]
