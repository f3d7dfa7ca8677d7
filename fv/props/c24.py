"""A bounding circle cuts the diagram at the circle."""
import warnings
from decimal import Decimal as Dec, localcontext
from fractions import Fraction as F

from hypothesis import strategies as st

from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, Reject, StepCap, need, number
from ..runner import Leg

ASSUMPTIONS = ["inputs are rejected whose diagram in the circle has borders shorter than 1e-5 of the diameter, or a border that "
               "all but touches the circle (touching exactly is kept, unless very far from the origin)",
               "cells are closed by chords, as documented: arcs and the areas behind them are not represented"]


def dec(x):
    return Dec(x.numerator) / Dec(x.denominator) if isinstance(x, F) else Dec(x)


def clean(p):
    q = Dec("1e-25")
    return tuple((dec(c).quantize(q) + 0) for c in p)


def piece(P, Q, c, r, far=False):
    """The part of the segment in the disc, as two points, or None; rejects what is too close to call."""
    a = X.d2(P, Q)
    D = (Q[0] - P[0], Q[1] - P[1])
    b = D[0] * (P[0] - c[0]) + D[1] * (P[1] - c[1])
    k = X.d2(P, c) - r * r
    disc = F(b * b - a * k)
    flat = disc / (F(a) * r * r)
    if flat <= 0:
        if flat > -1e-6 and (flat or far):
            raise Reject("nearly touching")
        return None
    if flat < 1e-6:
        raise Reject("nearly touching")
    root = dec(disc).sqrt()
    t0, t1 = (-dec(b) - root) / dec(F(a)), (-dec(b) + root) / dec(F(a))
    lo, hi = max(t0, Dec(0)), min(t1, Dec(1))
    if hi - lo <= Dec("1e-30"):
        return None
    if (hi - lo) * dec(F(a)).sqrt() < Dec(2 * r) * Dec("1e-5"):
        raise Reject("short border")

    def at(t):
        return clean(P if t == 0 else Q if t == 1 else [dec(P[i]) + t * dec(D[i]) for i in (0, 1)])
    return at(lo), at(hi)


def reference(sites, c, r, far=False):
    """Cells in the tagged format of exact.voronoi, with chords tagged ("b", 0)."""
    box = [(c[0] - 2 * r, c[1] - 2 * r), (c[0] + 2 * r, c[1] - 2 * r), (c[0] + 2 * r, c[1] + 2 * r), (c[0] - 2 * r, c[1] + 2 * r)]
    out, known = [], {}
    for i, cell in enumerate(X.voronoi(sites, box)):
        parts = []
        for (p, t), (q, _) in zip(cell, cell[1:] + cell[:1]):
            if t[0] == "b" or p == q:
                continue
            found = known.get((t[1], i))
            if found is None:
                known[i, t[1]] = found = piece(p, q, c, r, far) or ()
            else:
                found = found[::-1]
            if found:
                parts.append((found, t))
        loop = []
        for ((p, q), t), ((p2, _), _) in zip(parts, parts[1:] + parts[:1]):
            loop.append((p, t))
            if q != p2:
                loop.append((q, ("b", 0)))
        out.append(loop)
    corners = sorted({p for loop in out for p, _ in loop})
    for k, p in enumerate(corners):
        for q in corners[k + 1:]:
            if q[0] - p[0] > Dec(2 * r) * Dec("1e-5"):
                break
            if abs(q[1] - p[1]) < Dec(2 * r) * Dec("1e-5"):
                raise Reject("close corners")
    return out


class CircleFrame(Frame):
    def __init__(self, case):
        (x, y), r = case["center"], case["radius"]
        super().__init__(dict(case, poly=[[x - r, y - r], [x + r, y - r], [x + r, y + r], [x - r, y + r]]))
        self.center, self.radius = (x, y), r

    def make_poly(self, swap=0):
        from foronoi.contrib import BoundingCircle
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return BoundingCircle(*self.num(self.center), number(self.radius, self.e, self.kind))


def check(case):
    import foronoi
    fr = CircleFrame(case)
    with localcontext() as ctx:
        ctx.prec = 80
        cells = reference(fr.sites, fr.center, fr.radius, max(abs(fr.dx), abs(fr.dy)) > 10 ** 5 * fr.radius)
    circle = fr.make_poly()
    for p in case["queries"]:
        got = circle.inside(foronoi.Coordinate(*fr.num(p)))
        need(bool(got) == (X.d2(p, fr.center) < fr.radius ** 2), "inside(%s) is %r" % (p, got))
    if case["again"]:
        # the circle was used for another diagram before
        foronoi.Voronoi(circle).create_diagram(fr.points()[:case["again"]])
    v = foronoi.Voronoi(circle, remove_zero_length_edges=case["zero"])
    v.attach_observer(StepCap(len(fr.sites)))
    v.create_diagram(fr.points())
    empty = {i for i, c in enumerate(cells) if not c}
    D = Diagram(v, fr, None, empty)
    if case["zero"]:
        oracles.check_cells(D, cells)
        oracles.check_edges(D, cells)
        oracles.check_vertices(D, cells)
    else:
        oracles.check_cells(D, cells, zero_edges=True)
    oracles.check_structure(D, oriented=False)
    if case["picture"]:
        picture(v, circle, case["picture"])
    lab = []
    on = {p for c in cells for p, _ in c if abs(X.d2(p, fr.center) - fr.radius ** 2) < Dec("1e-15")}
    if any(sum(1 for c in cells for p, _ in c if p == q) > 2 for q in on):
        lab.append("meeting-on-circle")
    if any(X.d2(p, fr.center) > fr.radius ** 2 for p in fr.sites):
        lab.append("site-outside")
    if empty:
        lab.append("empty-cell" if len(empty) < len(cells) else "no-borders")
    if any(len(c) == 2 for c in cells):
        lab.append("two-corners")
    if len(on) > 2:
        lab.append("crossings>2")
    return {"nontrivial": len(on) > 2, "labels": lab}


def check_noisy(case):
    """Nearly special positions: rounding may decide about borders that are very short or all but touch the circle."""
    import foronoi
    fr = CircleFrame(case)
    c, r = fr.center, fr.radius
    sites = fr.sites
    w = max([2 * r] + [abs(x - c[0]) for x, _ in sites] + [abs(y - c[1]) for _, y in sites])
    box = [(c[0] - w, c[1] - w), (c[0] + w, c[1] - w), (c[0] + w, c[1] + w), (c[0] - w, c[1] + w)]
    want = {}
    with localcontext() as ctx:
        ctx.prec = 80
        for i, cell in enumerate(X.voronoi(sites, box)):
            for (p, t), (q, _) in zip(cell, cell[1:] + cell[:1]):
                if t[0] == "b" or p == q or i > t[1]:
                    continue
                for x in (p, q):
                    away = dec(F(X.d2(x, c), r * r)) - 1
                    if Dec("1e-13") < abs(away) < Dec("2e-8"):
                        raise Reject("a corner next to the circle")
                try:
                    found, sure = piece(p, q, c, r), True
                except Reject:
                    found, sure = None, False
                if found or not sure:
                    want.setdefault((i, t[1]), []).append((found and [oracles.fl(x) for x in found], oracles.fl(p), oracles.fl(q)))
    v = foronoi.Voronoi(fr.make_poly())
    v.attach_observer(StepCap(len(sites)))
    v.create_diagram(fr.points())
    empty = {i for i, s in enumerate(v.sites) if s.first_edge is None}
    D = Diagram(v, fr, None, empty)
    oracles.check_structure(D, oriented=False)
    tol = fr.size * 1e-6
    got = {}
    for e in v.edges:
        a, b = oracles.edge_sites(D, e)
        p, q = fr.back(e.origin), fr.back(e.target)
        for x in (p, q):
            away = ((x[0] - c[0]) ** 2 + (x[1] - c[1]) ** 2) ** 0.5 - r
            need(away <= tol, "an edge ends %.3g outside of the circle" % away)
            need(abs(away) <= tol or (a is not None and b is not None), "a chord ends %.3g inside the circle" % -away)
        if a is not None and b is not None:
            got.setdefault((min(a, b), max(a, b)), []).append((p, q))
    for key, pieces in want.items():
        for found, _, _ in pieces:
            if not found:
                continue
            same = [k for k, (p, q) in enumerate(got.get(key, [])) if oracles.near(p, found[0], tol) and oracles.near(q, found[1], tol)
                    or oracles.near(q, found[0], tol) and oracles.near(p, found[1], tol)]
            need(len(same) == 1, "the border between the sites %s in the circle, %s, occurs %d times" % (key, found, len(same)))
            got[key].pop(same[0])
    for key, rest in got.items():
        for p, q in rest:
            if max(abs(p[0] - q[0]), abs(p[1] - q[1])) > fr.size * 1e-3:
                need(any(found is None for found, _, _ in want.get(key, [])), "superfluous edge between the sites %s: %s" % (
                    key, (p, q)))
    return {"nontrivial": len(want) > 1, "labels": ["noisy"] + (["empty-cell"] if empty else [])}


def picture(v, circle, offset):
    import matplotlib.pyplot as plt
    from matplotlib.patches import Circle
    from foronoi import Visualizer
    try:
        vis = Visualizer(v, canvas_offset=offset)
        vis.plot_polygon()
        ax = vis.get_canvas().axes[0]
        shown = [a for a in ax.patches if isinstance(a, Circle)]
        need(len(shown) == 1 and len(ax.patches) == 1, "the picture of the outline has %d patches" % len(ax.patches))
        got = [float(x) for x in shown[0].center] + [float(shown[0].width) / 2]
        want = [float(circle.xd), float(circle.yd), float(circle.radius)]
        need(got == want, "the outline is drawn with centre and radius %s, they are %s" % (got, want))
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        need(x0 <= want[0] - want[2] and x1 >= want[0] + want[2] and y0 <= want[1] - want[2] and y1 >= want[1] + want[2],
             "the circle does not fit into the picture")
    finally:
        plt.close("all")


@st.composite
def circles(draw, lo=1, hi=9):
    R = draw(st.sampled_from([5, 10, 10, 15, 25, 50, 100, 1000]))
    w = draw(st.sampled_from([R // 2, R, R, 2 * R]))
    square = [(-w, -w), (w, -w), (w, w), (-w, w)]
    sites = draw(gens.site_sets(square, lo, hi))
    if draw(st.integers(0, 3)) == 0:
        # sites whose borders meet on the circle
        k = R // 5
        x, y = draw(st.sampled_from(gens.CIRCLE))
        m = draw(st.integers(1, max(1, k)))
        for a, b in draw(gens.ulist(st.sampled_from(gens.CIRCLE), 12, 3, 5)):
            p = (x * k + m * a, y * k + m * b)
            if p not in sites:
                sites.insert(draw(st.integers(0, len(sites))), p)
    if draw(st.integers(0, 5)) == 0:
        # a border that touches the circle
        d, t, f = draw(st.integers(1, R)), draw(st.integers(-R // 2, R // 2)), draw(st.integers(0, 3))
        for s in (d, -d):
            p = (R + s, t)
            p = (p, (t, R + s), (-R - s, t), (t, -R - s))[f]
            if p not in sites:
                sites.append(p)
    case = draw(gens.frames(R))
    cx, cy = draw(st.sampled_from([(0, 0), (0, 0), (R, R), (-R // 3, R // 7), (3 * R, -2 * R)]))
    case["center"], case["radius"] = [cx, cy], R
    case["sites"] = [[x + cx, y + cy] for x, y in sites]
    case["zero"] = draw(st.integers(0, 3)) > 0
    near = st.tuples(st.integers(-R - 1, R + 1), st.integers(-R - 1, R + 1))
    special = st.sampled_from([(a * R // 5, b * R // 5) for a, b in gens.CIRCLE])
    case["queries"] = [[x + cx, y + cy] for x, y in draw(st.lists(st.one_of(near, special), max_size=4))]
    case["again"] = draw(st.sampled_from([0, 0, 1, 2, 4]))
    small = abs(case["dx"]) < 10 ** 4 * R and abs(case["dy"]) < 10 ** 4 * R
    case["picture"] = draw(st.sampled_from([0] * 14 + [1, 0.5])) if small else 0
    return case


@st.composite
def rough(draw):
    R = draw(st.sampled_from([5, 10, 20]))
    case = draw(gens.noisy(2, 9, Rs=(R,), poly_kinds=["box", "hull", "diamond"]))
    f = 10 ** -case["e"]
    case["center"] = [draw(st.integers(0, R)) * f, draw(st.integers(0, R)) * f]
    case["radius"] = draw(st.sampled_from([R // 2, R // 2, R, 5])) * f
    del case["poly"], case["box"]
    return case


RULE = "more than two places where borders cross the circle"
LEGS = [
    Leg("circle", circles(), check, 4000, 80000, RULE),
    Leg("many", circles(10, 30), check, 400, 8000, RULE),
    Leg("large", circles(60, 130), check, 24, 500, RULE),
    Leg("noisy", rough(), check_noisy, 1500, 30000, "more than one border in the circle"),
]
