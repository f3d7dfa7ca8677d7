"""Zero-length edge removal merges coinciding vertices and changes nothing else."""
from . import c23
from .. import gens, oracles
from ..diag import Frame, Diagram, blank, run, reference, ring, classify, need
from ..runner import Leg
from .c01 import ASSUMPTIONS  # noqa: F401


def zero(fr, e):
    return oracles.near(fr.back(e.origin), fr.back(e.twin.origin), fr.tol)


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    none = blank(cells)
    on = Diagram(run(fr, True), fr, empty=none)
    off = Diagram(run(fr, False), fr, empty=none)
    lab = classify(fr, cells)

    # on: nothing of zero length, nothing coincides
    for e in on.v.edges:
        need(not zero(fr, e), lambda: "an edge of zero length remains at %s" % oracles.show([fr.back(e.origin)]))
    pts = sorted(fr.back(x) for x in on.v.vertices)
    for k, p in enumerate(pts):
        for q in pts[k + 1:]:
            if q[0] - p[0] > fr.tol:
                break
            need(not oracles.near(p, q, fr.tol), "two vertices coincide at %s" % oracles.show([p]))

    # both: the same geometry
    for D in (on, off):
        oracles.check_cells(D, cells, zero_edges=True)
    need(oracles.adjacency(on) == oracles.adjacency(off), "removing zero-length edges changes the adjacencies")
    for i in range(on.n):
        a, b = on.sites[i].area(), off.sites[i].area()
        need(abs(a - b) <= 1e-9 * fr.unit ** 2 * max(fr.size ** 2, max(abs(fr.dx), abs(fr.dy)) ** 2 * 1e-3),
             lambda: "area of site %d: %r with and %r without removal" % (i, a, b))

    # off: extra edges have zero length and lie at a corner of the diagram
    corners = [oracles.fl(p) for p in oracles.expected_vertices(cells)]
    zeros = [e for e in off.v.edges if zero(fr, e)]
    need(len(off.v.edges) - len(zeros) == len(on.v.edges),
         lambda: "%d edges of non-zero length without removal, %d edges with it" % (
             len(off.v.edges) - len(zeros), len(on.v.edges)))
    for e in zeros:
        p = fr.back(e.origin)
        need(any(oracles.near(p, q, fr.tol) for q in corners), "a zero-length edge lies away from all corners")
    # every vertex of the raw diagram lies at a corner of the diagram as well, and every corner has one
    raw = [fr.back(x) for x in off.v.vertices]
    for p in raw:
        need(any(oracles.near(p, q, fr.tol) for q in corners),
             lambda: "without removal there is a vertex at %s, away from all corners" % oracles.show([p]))
    for q in corners:
        need(any(oracles.near(p, q, fr.tol) for p in raw),
             lambda: "without removal there is no vertex at the corner %s" % oracles.show([q]))
    # structure is sound either way
    oracles.check_structure(on)
    lab.append("zero-length-edges=%s" % (len(zeros) if len(zeros) < 4 else "4+"))
    return {"nontrivial": bool(zeros), "labels": lab}


def check_tiny(case):
    """Clean-up comes to an end and leaves borders that can be followed, even if whole cells are smaller than rounding."""
    fr = Frame(case)
    n = {}
    for remove in (True, False):
        v = run(fr, remove_zero=remove)
        n[remove] = len(v.edges)
        for s in v.sites:
            if s.first_edge is not None:
                ring(s.first_edge, 4 * (len(v.edges) + 10))
    need(n[True] <= n[False], "clean-up adds edges")
    return {"nontrivial": n[True] < n[False], "labels": ["removed=%d+" % ((n[False] - n[True]) // 2 * 2)]}


RULE = "the diagram made without removal has at least one zero-length edge"
KINDS = ["grid", "grid", "lattice", "circle", "circle", "circle", "mirror", "rim", "rows", "diag", "rand"]
LEGS = [
    Leg("degenerate", gens.diagrams(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20, 50), site_kinds=KINDS), check, 4000,
        60000, RULE),
    Leg("circles", gens.diagrams(4, 14, Rs=(10, 12, 16, 20, 30, 60), site_kinds=["circle"]), check, 2000, 30000, RULE),
    Leg("grids", gens.diagrams(9, 36, Rs=(4, 6, 10, 12), site_kinds=["lattice", "grid"]), check, 300, 5000, RULE),
    Leg("large", gens.diagrams(60, 160, Rs=(12, 20, 100, 1000)), check, 24, 600, RULE),
    Leg("outside", c23.outside(9), check, 1000, 20000, RULE),
    Leg("tiny", gens.noisy(2, 7, hows=(4,), close=(0, 5)), check_tiny, 400, 8000, "clean-up removed an edge"),
]
