"""Shrinking the bounding polygon only cuts the cells."""
from hypothesis import strategies as st

from . import c23
from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, blank, run, reference, classify, need
from ..runner import Leg

ASSUMPTIONS = ["the larger polygon is a convex polygon around the smaller one, possibly sharing sides or corners"]


def cut(loop, Q):
    for a, b in zip(Q, Q[1:] + Q[:1]):
        # inside is to the left of a->b:  (b-a) x (p-a) >= 0
        ax, ay, bx, by = float(a[0]), float(a[1]), float(b[0]), float(b[1])
        A, B = by - ay, -(bx - ax)
        loop = oracles.fclip(loop, A, B, A * ax + B * ay)
        if len(loop) < 3:
            return []
    return loop


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    big = Frame(dict(case, poly=case["outer"], box=False))
    need(all(X.side(big.ccw, p) >= 0 for p in fr.ccw), "generator: not nested")
    outer_cells = reference(big, 1e-6)
    D = Diagram(run(fr), fr, empty=blank(cells))
    E = Diagram(run(big), big, empty=blank(outer_cells))
    tol = max(fr.tol, big.tol)
    for x in D.v.vertices:
        p = fr.back(x)
        need(oracles.inside_convex([oracles.fl(q) for q in fr.ccw], p, fr.tol),
             lambda: "vertex %s lies outside the polygon" % oracles.show([p]))
    for x in E.v.vertices:
        p = big.back(x)
        need(oracles.inside_convex([oracles.fl(q) for q in big.ccw], p, big.tol),
             lambda: "vertex %s lies outside the larger polygon" % oracles.show([p]))
    for i in range(D.n):
        inner, outer = D.loop(i), E.loop(i)
        c = cut(outer, fr.ccw)
        need(abs(oracles.farea(c) - oracles.farea(inner)) <= 20 * tol * fr.size,
             lambda: "cell of site %d has area %.9g; the cell in the larger polygon, cut, has %.9g" % (
                 i, oracles.farea(inner), oracles.farea(c)))
        for p in inner:
            need(oracles.inside_convex(outer, p, 4 * tol),
                 lambda: "cell of site %d reaches %s, outside its cell in the larger polygon" % (i, oracles.show([p])))
        for p in c if inner else ():
            need(oracles.inside_convex(inner, p, 4 * tol),
                 lambda: "cell of site %d misses %s, which is in its cell in the larger polygon" % (
                     i, oracles.show([p])))
    # borders strictly inside the smaller polygon are the same in both
    def inner_edges(D, fr):
        out = set()
        for e in D.v.edges:
            a, b = oracles.edge_sites(D, e)
            if a is None or b is None:
                continue
            p, q = fr.back(e.origin), fr.back(e.twin.origin)
            if all(_depth(fr_small, r) > 10 * tol for r in (p, q)):
                out.add((frozenset((a, b)), tuple(sorted((tuple(round(c / (100 * tol)) for c in p),
                                                          tuple(round(c / (100 * tol)) for c in q))))))
        return out
    fr_small = [oracles.fl(q) for q in fr.ccw]
    s1, s2 = {f for f, _ in inner_edges(D, fr)}, {f for f, _ in inner_edges(E, big)}
    need(s1 == s2, lambda: "borders inside the smaller polygon differ: %s" % sorted(map(sorted, s1 ^ s2))[:3])
    return {"nontrivial": len(fr.sites) >= 2 and big.ccw != fr.ccw, "labels": classify(fr, cells)}


def _depth(Q, p):
    """Distance from the outline, positive inside (ccw polygon)."""
    import math
    return min(X.cross(a, b, p) / math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(Q, Q[1:] + Q[:1]))


@st.composite
def cases(draw, *a, base=gens.diagrams, **kw):
    case = draw(base(*a, **kw))
    poly = [tuple(p) for p in case["poly"]]
    x0, x1 = min(p[0] for p in poly), max(p[0] for p in poly)
    y0, y1 = min(p[1] for p in poly), max(p[1] for p in poly)
    S = max(x1 - x0, y1 - y0)
    how = draw(st.integers(0, 2))
    if how == 0:
        m = [draw(st.sampled_from([0, 0, 1, S // 2, S, 3 * S, 20 * S])) for _ in range(4)]
        outer = [(x0 - m[0], y0 - m[1]), (x1 + m[2], y0 - m[1]), (x1 + m[2], y1 + m[3]), (x0 - m[0], y1 + m[3])]
    else:
        far = draw(st.lists(st.tuples(st.integers(x0 - 3 * S, x1 + 3 * S), st.integers(y0 - 3 * S, y1 + 3 * S)),
                            min_size=1, max_size=5))
        outer = X.hull(poly + far)
    case["outer"] = [list(p) for p in outer]
    return case


RULE = "at least two sites and the two polygons differ"
LEGS = [
    Leg("small", cases(1, 9), check, 2000, 40000, RULE),
    Leg("degenerate", cases(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1500, 30000, RULE),
    Leg("outside", cases(8, base=c23.outside), check, 1000, 20000, RULE),
    Leg("medium", cases(15, 50, Rs=(20, 100, 1000)), check, 80, 2000, RULE),
    Leg("large", cases(80, 160, Rs=(100, 1000)), check, 24, 600, RULE),
]
