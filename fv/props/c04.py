"""The vertex list is exactly the set of corners of the clipped diagram."""
from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, run, reference, classify, need
from ..runner import Leg
from .c01 import ASSUMPTIONS  # noqa: F401


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    D = Diagram(run(fr), fr)
    oracles.check_vertices(D, cells)
    return {"nontrivial": len(fr.sites) >= 2, "labels": classify(fr, cells)}


def check_noisy(case):
    """Up to 1e-6 of the size: corners so close to each other may be one vertex or several."""
    fr = Frame(case)
    want = [oracles.fl(p) for p in oracles.expected_vertices(X.voronoi(fr.sites, fr.ccw))]
    D = Diagram(run(fr), fr)
    got = [fr.back(x) for x in D.v.vertices]
    tol = 1e-6 * fr.size
    for w in want:
        need(any(oracles.near(g, w, tol) for g in got), lambda: "no vertex at the diagram's corner %s" % oracles.show([w]))
    for g in got:
        need(any(oracles.near(g, w, tol) for w in want), lambda: "superfluous vertex %s" % oracles.show([g]))
    need(len({id(x) for x in D.v.vertices}) == len(got), "a vertex is listed twice")
    need({id(x) for x in D.v.vertices} == {id(h.origin) for e in D.v.edges for h in (e, e.twin)},
         "the vertices are not the ends of the edges")
    return {"nontrivial": len(fr.sites) >= 3, "labels": ["noisy"]}


RULE = "at least two sites"
LEGS = [
    Leg("small", gens.diagrams(1, 8), check, 2200, 50000, RULE),
    Leg("degenerate", gens.diagrams(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2000, 50000, RULE),
    Leg("noisy", gens.noisy(2, 10), check_noisy, 1000, 25000, "at least three sites, nearly in special position"),
    Leg("medium", gens.diagrams(12, 40, Rs=(12, 40, 100, 1000)), check, 150, 3000, RULE),
    Leg("large", gens.diagrams(90, 220, Rs=(20, 40, 100, 300, 1000)), check, 48, 1000, RULE),
]
