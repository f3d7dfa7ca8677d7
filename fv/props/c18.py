"""A bounding polygon knows its corners, extent, order and inside."""
from decimal import Decimal
from fractions import Fraction as F

from hypothesis import strategies as st

from .. import exact as X, gens
from ..diag import Frame, StepCap, need
from ..runner import Leg

ASSUMPTIONS = ["corners are distinct, in convex position or on the sides between such corners, and the polygon's area is at "
               "least a twenty-fifth of the square of its larger extent (double precision angles decide the order)"]


@st.composite
def cases(draw):
    R = draw(st.sampled_from([2, 3, 4, 6, 10, 20, 100, 1000, 10 ** 6]))
    kind = draw(st.sampled_from(["poly", "poly", "poly", "many", "midpoints"]))
    if kind == "many":
        k = draw(st.integers(1, max(1, R)))
        base = draw(st.lists(st.sampled_from(gens.CIRCLE25 + [(25, 0), (-25, 0)]), min_size=3, max_size=20, unique=True))
        poly = [(k * x, k * y) for x, y in base]
        box = False
    elif kind == "midpoints":
        base, box = draw(gens.polygons(R)), False
        base = X.hull([(6 * x, 6 * y) for x, y in base[0]], keep_collinear=True)
        poly = list(base)
        for a, b in zip(base, base[1:] + base[:1]):
            for t in draw(st.lists(st.integers(1, 5), max_size=3, unique=True)):
                poly.append((a[0] + (b[0] - a[0]) * t // 6, a[1] + (b[1] - a[1]) * t // 6))
        poly = list(draw(st.permutations(poly)))
    else:
        poly, box = draw(gens.polygons(R))
        box = bool(box and draw(st.booleans()))
    case = draw(gens.frames(R, remote=False))
    case.update(poly=[list(p) for p in poly], sites=[], box=box)
    x0, x1 = min(p[0] for p in poly), max(p[0] for p in poly)
    y0, y1 = min(p[1] for p in poly), max(p[1] for p in poly)
    w, h = x1 - x0, y1 - y0
    # query points in quarters of the lattice, some of them level with corners or close to sides
    q = st.tuples(st.integers(4 * x0 - w - 4, 4 * x1 + w + 4), st.integers(4 * y0 - h - 4, 4 * y1 + h + 4))
    level = st.tuples(st.integers(4 * x0 - w - 4, 4 * x1 + w + 4), st.sampled_from([4 * p[1] for p in poly]))
    above = st.tuples(st.sampled_from([4 * p[0] for p in poly]), st.integers(4 * y0 - h - 4, 4 * y1 + h + 4))
    close = st.tuples(st.sampled_from(poly), st.integers(-3, 3), st.integers(-3, 3)).map(
        lambda t: (4 * t[0][0] + t[1], 4 * t[0][1] + t[2]))
    case["queries"] = [list(p) for p in draw(st.lists(st.one_of(q, level, above, close), min_size=3, max_size=12))]
    if draw(st.integers(0, 3)) == 0:  # more digits than a float has
        far = draw(st.sampled_from([10 ** 13, 10 ** 16, 10 ** 17, 10 ** 18]))
        case.update(num="dec", dx=draw(st.sampled_from([far, -far, 3 * far + 1, 0])), dy=draw(st.sampled_from([far, -far, 7 * far - 2, 0])))
    # and points very close to the outline (in units of 1e-6)
    tour = X.hull(poly, keep_collinear=True)
    near = st.tuples(st.integers(0, len(tour) - 1), st.integers(0, 4), st.integers(-3, 3), st.integers(-3, 3)).map(
        lambda t: [(4 - t[1]) * a * 10 ** 6 + t[1] * b * 10 ** 6 + o for a, b, o in zip(
            tour[t[0]], tour[(t[0] + 1) % len(tour)], t[2:])])
    case["near"] = draw(st.lists(near, max_size=4))
    case["site"] = draw(st.integers(0, 1000))
    if box:  # bounds may be given the wrong way round
        case["swap"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    return case


def check(case):
    import foronoi
    fr = Frame(case)
    Q = fr.ccw
    if X.area2(Q) * 25 < fr.size ** 2:
        from ..diag import Reject
        raise Reject("thin polygon")
    if len(Q) != len(set(fr.poly)):
        from ..diag import Reject
        raise Reject("not convex")
    given = {p: tuple(Decimal(str(c)) for c in fr.num(p, i)) for i, p in enumerate(fr.poly)}
    poly = fr.make_poly(case.get("swap", 0))
    if fr.box:
        given = {p: tuple(Decimal(c + o).scaleb(fr.e) for c, o in zip(p, (fr.dx, fr.dy))) for p in Q}

    def look(when):
        pts = list(poly.points)
        got = [(p.xd, p.yd) for p in pts]
        need(sorted(got) == sorted(given.values()), lambda: "%s: the corners are %s, given were %s" % (
            when, got, list(given.values())))
        need([tuple(c) for c in poly.get_coordinates()] == got, "%s: get_coordinates() lists other corners" % when)
        cw = [given[p] for p in Q[::-1]]
        k = cw.index(got[0])
        need(got == cw[k:] + cw[:k], lambda: "%s: the corners are listed as %s, a clockwise tour is %s" % (
            when, got, cw[k:] + cw[:k]))
        ext = [min(p[0] for p in got), max(p[0] for p in got), min(p[1] for p in got), max(p[1] for p in got)]
        have = [poly.min_x, poly.max_x, poly.min_y, poly.max_y]
        need(have == ext, lambda: "%s: the extent is given as %s, it is %s" % (when, have, ext))
    look("at first")
    ins = {True: 0, False: 0}

    def ask(when):
        for a, b, fine in [(a, b, 1) for a, b in case["queries"]] + [(a, b, 10 ** 6) for a, b in case.get("near", [])]:
            p4 = (a, b)
            side = X.side([(4 * fine * x, 4 * fine * y) for x, y in Q], p4)
            if side == 0:
                continue
            x = (Decimal(a) / (4 * fine) + fr.dx).scaleb(fr.e)
            y = (Decimal(b) / (4 * fine) + fr.dy).scaleb(fr.e)
            for c in (foronoi.Point(x, y), foronoi.Coordinate(x, y), foronoi.graph.Vertex(x, y)):
                got = poly.inside(c)
                need(bool(got) == (side > 0), lambda: "%s: inside(%s, %s) says %r for the polygon %s" % (
                    when, x, y, got, poly.get_coordinates()))
            ins[side > 0] += 1
    ask("at first")
    # a diagram in the polygon does not change what it says about itself
    inner = [p for p in Q] + [(F(sum(p[0] for p in Q), len(Q)), F(sum(p[1] for p in Q), len(Q)))]
    s = inner[case["site"] % len(inner)]
    if s[0].denominator == 1 and s[1].denominator == 1:
        v = foronoi.Voronoi(poly)
        v.attach_observer(StepCap(1))
        v.create_diagram([(Decimal(int(s[0]) + fr.dx).scaleb(fr.e), Decimal(int(s[1]) + fr.dy).scaleb(fr.e))])
        look("after a diagram")
        ask("after a diagram")
    return {"nontrivial": ins[True] > 0 and ins[False] > 0,
            "labels": ["corners=%d" % len(Q), "box" if fr.box else "polygon", "num-" + fr.kind,
                       "sorted" if fr.poly == Q[::-1] else "unsorted"]}


LEGS = [Leg("polygons", cases(), check, 4000, 80000, "at least one query strictly inside and one strictly outside")]
