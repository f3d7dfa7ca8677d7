"""Edges are exactly the borders between neighbouring cells plus the outline."""
import math

from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, run, reference, classify, need
from ..runner import Leg
from .c01 import ASSUMPTIONS  # noqa: F401


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    D = Diagram(run(fr), fr)
    oracles.check_edges(D, cells)
    return {"nontrivial": len(fr.sites) >= 2, "labels": classify(fr, cells)}


def check_noisy(case):
    """Edges longer than 1e-5 of the size, up to 1e-6 of the size; shorter ones may be missing or additional."""
    fr = Frame(case)
    cells = X.voronoi(fr.sites, fr.ccw)
    D = Diagram(run(fr), fr)
    tol = 1e-6 * fr.size
    got = []
    for e in D.v.edges:
        a, b = oracles.edge_sites(D, e)
        h = e
        if a is None or (b is not None and b < a):
            a, b, h = b, a, e.twin
        got.append((a, b, fr.back(h.origin), fr.back(h.twin.origin)))
    want = oracles.expected_edges(cells)
    for xs, ys, what in ((want, got, "missing"), (got, want, "unexpected")):
        for i, j, p, q in xs:
            if math.dist(p, q) > 10 * tol:
                k = sum(1 for a, b, r, s in ys if (a, b) == (i, j) and oracles.near(p, r, tol) and oracles.near(q, s, tol))
                need(k == 1, lambda: "%s edge between site %s and %s from %s to %s (found %d times)" % (
                    what, i, "the outline" if j is None else "site %d" % j, oracles.show([p]), oracles.show([q]), k))
    return {"nontrivial": len(fr.sites) >= 3, "labels": ["noisy"]}


RULE = "at least two sites (so that an inner border exists)"
LEGS = [
    Leg("small", gens.diagrams(1, 8), check, 2200, 50000, RULE),
    Leg("degenerate", gens.diagrams(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2000, 50000, RULE),
    Leg("noisy", gens.noisy(2, 10), check_noisy, 1000, 25000, "at least three sites, nearly in special position"),
    Leg("medium", gens.diagrams(12, 40, Rs=(12, 40, 100, 1000)), check, 150, 3000, RULE),
    Leg("large", gens.diagrams(90, 220, Rs=(20, 40, 100, 300, 1000)), check, 56, 1200, RULE),
]
