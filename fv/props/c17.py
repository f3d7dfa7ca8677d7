"""Pictures show exactly the diagram's geometry."""
import math
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from . import c23
from .. import gens, oracles
from ..diag import Frame, Diagram, StepCap, classify, fail, need, reference
from ..figure import canonical, describe
from ..runner import Leg
from ..sweep import breakpoint_x, parabola_y

ASSUMPTIONS = ["colours, fonts and the drawing order are not checked, except that exactly the first edges' pointers have a "
               "colour of their own", "explicit lists of elements are not empty"]

FLAGS = ["polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels",
         "triangles", "arcs", "sweep_line", "events", "arc_labels", "beach_line"]
DEFAULT_ON = {"edges", "vertices", "sites"}


@st.composite
def pictures(draw, hi=7, lo=1):
    case = draw(gens.diagrams(lo, hi, Rs=(6, 10, 20, 100), remote=False))
    if draw(st.integers(0, 5)) == 0:
        case = draw(c23.outside(hi, remote=False))
    return {"diagram": case, "offset": draw(st.sampled_from([0, 1, 1, 2, 10, 0.5, 0.1, 3.75, -0.25])), "pick": draw(st.integers(0, 10 ** 6)),
            "scale": draw(st.sampled_from([0.5, 1, 2, 3.25])), "when": draw(st.integers(0, 40)),
            "zero": draw(st.booleans()),
            "flags": draw(st.dictionaries(st.sampled_from(FLAGS), st.booleans(), max_size=14))}


def f2(c):
    return float(c.xd), float(c.yd)


def subset(items, pick):
    out = [e for i, e in enumerate(items) if (pick >> (i % 17)) & 1]
    return out or list(items[:1])


class Canvas:
    """A fresh picture of the diagram; calls one function and describes what it added."""

    def __init__(self, v, offset):
        from foronoi.visualization import Visualizer
        self.vis = Visualizer(v, canvas_offset=offset, figsize=(3, 3))

    def draw(self, name, *a, **kw):
        back = getattr(self.vis, name)(*a, **kw)
        need(back is self.vis, "%s() does not return the visualizer, so calls cannot be chained" % name)
        d = describe(self.vis.get_canvas())
        need(d["axes"] == 1, "a picture has %r axes" % d["axes"])
        return d


def only(d, *kinds):
    """Nothing but the named kinds was drawn."""
    for k in ("scatter", "line", "polygon", "circle", "arrow", "text", "other"):
        if k not in kinds:
            need(not d[k], lambda: "something else was drawn: %s %s" % (k, str(d[k])[:200]))


def markers(d):
    return sorted(p for pts, _, _ in d["scatter"] for p in pts)


def same_points(got, want, tol, what):
    want = sorted(want)
    need(len(got) == len(want), lambda: "%d %s are drawn, there are %d" % (len(got), what, len(want)))
    left = list(want)
    for p in got:
        k = min(range(len(left)), key=lambda i: math.dist(left[i], p))
        need(math.dist(left[k], p) <= tol, lambda: "%s are drawn at %s, they are at %s" % (what, got, want))
        left.pop(k)


def segments(d):
    out = []
    for xs, ys, color, style in d["line"]:
        need(len(xs) == 2, "an edge is not drawn as a straight line")
        out.append(((xs[0], ys[0]), (xs[1], ys[1]), color, style))
    return out


def same_segment(s, a, b, tol):
    return (math.dist(s[0], a) <= tol and math.dist(s[1], b) <= tol) or (math.dist(s[0], b) <= tol
                                                                       and math.dist(s[1], a) <= tol)


def check_edges(d, edges, tol, labels, what):
    """Each edge drawn as a line between its ends, nothing else; labels name the cells."""
    segs = segments(d)
    want = [(f2(e.origin), f2(e.twin.origin)) for e in edges]
    for a, b in want:
        need(any(same_segment(s, a, b, tol) for s in segs), lambda: "%s: no line between %s and %s" % (what, a, b))
    for s in segs:
        need(any(same_segment(s, a, b, tol) for a, b in want),
             lambda: "%s: a line from %s to %s is no edge" % (what, s[0], s[1]))
    if not labels:
        need(not d["text"], "%s: labels are drawn though they are off" % what)
        return
    left = list(d["text"])
    need(len(left) == len(edges), lambda: "%s: %d labels for %d edges" % (what, len(left), len(edges)))
    for e, (a, b) in zip(edges, want):
        i, j = e.incident_point, e.twin.incident_point
        name = "%s/%s" % ("P%d" % i.name if i is not None else None, "P%d" % j.name if j is not None else "-")
        for t in left:
            if t[0] == name and on_segment((t[1], t[2]), a, b, tol):
                left.remove(t)
                break
        else:
            fail("%s: the edge from %s to %s has no label %s on it; labels are %s" % (what, a, b, name, d["text"]))


def on_segment(p, a, b, tol):
    return math.dist(a, p) + math.dist(p, b) <= math.dist(a, b) + tol


def check_pointers(d, edges, tol):
    """A dashed line from the middle of each half-edge that has a site to that site, first edges in their own colour."""
    want = []
    for e in edges:
        for h in (e, e.twin):
            if h.incident_point is not None:
                a, b = f2(h.origin), f2(h.twin.origin)
                want.append((((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), f2(h.incident_point), h is h.incident_point.first_edge))
    segs = segments(d)
    need(len(segs) == len(want), lambda: "%d pointers from borders to sites are drawn, there are %d" % (len(segs), len(want)))
    colors = {True: set(), False: set()}
    left = list(segs)
    # pointers that coincide (a zero-length edge twice) are matched in any order
    for m, p, first in want:
        hit = [s for s in left if same_segment(s, m, p, tol)]
        need(hit, lambda: "no pointer from the middle of a border %s to its site %s" % (m, p))
        if len(hit) == 1:
            colors[first].add(hit[0][2])
        left.remove(hit[0])
    need(len(colors[True]) <= 1 and len(colors[False]) <= 1 and not (colors[True] & colors[False]),
         "first edges are not told apart by their colour")


def check_arrows(d, vertices, scale, tol):
    want = []
    for w in vertices:
        for h in w.connected_edges:
            a, b = f2(h.origin), f2(h.twin.origin)
            n = math.dist(a, b)
            if n > tol:
                want.append((a, (a[0] + (b[0] - a[0]) / n * scale, a[1] + (b[1] - a[1]) / n * scale)))
    arrows = [((x0, y0), (x1, y1)) for x0, y0, x1, y1, text, _ in d["arrow"]]
    need(len(arrows) >= len(want), lambda: "%d arrows for %d outgoing edges" % (len(arrows), len(want)))
    t2 = tol + 1e-6 * scale
    for a, b in want:
        need(any(math.dist(a, x) <= tol and math.dist(b, y) <= t2 for x, y in arrows),
             lambda: "no arrow of length %s from %s to %s" % (scale, a, b))
    if len(arrows) == len(want):
        for x, y in arrows:
            need(any(math.dist(a, x) <= tol and math.dist(b, y) <= t2 for a, b in want), "an arrow is no outgoing edge")


def offset_of(case, fr):
    """A negative offset must leave something of the polygon to show; a large one must not drown it in rounding."""
    off = case["offset"]
    w = min(max(p[k] for p in fr.poly) - min(p[k] for p in fr.poly) for k in (0, 1)) * fr.unit
    return off if -w < 4 * off < 1e6 * w else 0


def expected_limits(fr, offset):
    xs = [float(Decimal(p[0] + fr.dx).scaleb(fr.e)) for p in fr.poly]
    ys = [float(Decimal(p[1] + fr.dy).scaleb(fr.e)) for p in fr.poly]
    return (min(xs) - offset, max(xs) + offset), (min(ys) - offset, max(ys) + offset)


def check_limits(d, fr, offset, tol):
    lx, ly = expected_limits(fr, offset)
    for got, want, what in ((d["xlim"], lx, "x"), (d["ylim"], ly, "y")):
        need(max(abs(a - b) for a, b in zip(got, want)) <= tol + 1e-14 * max(map(abs, want)),
             lambda: "the %s axis covers %s, polygon and offset %s need %s" % (what, got, offset, want))


def build(case, observers=()):
    import foronoi
    fr = Frame(case["diagram"])
    cells = reference(fr)
    v = foronoi.Voronoi(fr.make_poly(), remove_zero_length_edges=case["zero"])
    v.attach_observer(StepCap(len(fr.sites)))
    for o in observers:
        v.attach_observer(o)
    v.create_diagram(fr.points())
    return fr, cells, v


def finite_tol(fr):
    return fr.tol * fr.unit * 10


def check_finished(case):
    import matplotlib.pyplot as plt
    fr, cells, v = build(case)
    D = Diagram(v, fr, None, {i for i, c in enumerate(cells) if not c})
    tol = finite_tol(fr)
    off, pick, scale = offset_of(case, fr), case["pick"], case["scale"]
    rank = {i: k for k, i in enumerate(sorted(range(D.n), key=lambda i: (-fr.sites[i][1], fr.sites[i][0])))}

    def site_xy(i):
        return tuple(float(Decimal(c + o).scaleb(fr.e)) for c, o in zip(fr.sites[i], (fr.dx, fr.dy)))
    # sites and their labels
    for labels in (True, False):
        for part in (None, subset(list(range(D.n)), pick)):
            idx = list(range(D.n)) if part is None else part
            pts = None if part is None else [D.sites[i] for i in part]
            d = Canvas(v, off).draw("plot_sites", *([] if pts is None else [pts]), show_labels=labels)
            only(d, "scatter", "text")
            same_points(markers(d), [site_xy(i) for i in idx], tol, "sites")
            want = sorted(("P%d" % rank[i],) + site_xy(i) for i in idx) if labels else []
            need(len(d["text"]) == len(want) and all(a[0] == b[0] and math.dist(a[1:], b[1:]) <= max(tol, 0.5 * fr.unit)
                                                     for a, b in zip(sorted(d["text"]), want)),
                 lambda: "the site labels are %s, should be %s" % (sorted(d["text"]), want))
    check_limits(d, fr, off, tol)
    # vertices: against the exact diagram, and explicitly passed ones
    d = Canvas(v, off).draw("plot_vertices")
    only(d, "scatter")
    exact = [(float((Decimal(p[0].numerator) / p[0].denominator + fr.dx).scaleb(fr.e)),
              float((Decimal(p[1].numerator) / p[1].denominator + fr.dy).scaleb(fr.e)))
             for p in oracles.expected_vertices(cells)]
    if case["zero"]:
        same_points(markers(d), exact, tol, "vertices")
    else:
        for p in exact:
            need(any(math.dist(p, q) <= tol for q in markers(d)), lambda: "the vertex at %s is not drawn" % (p,))
        for q in markers(d):
            need(any(math.dist(p, q) <= tol for p in exact), lambda: "a vertex is drawn at %s, where none is" % (q,))
    ws = subset(sorted(v.vertices, key=f2), pick)
    d = Canvas(v, off).draw("plot_vertices", ws)
    only(d, "scatter")
    same_points(markers(d), [f2(w) for w in ws], tol, "vertices")
    # edges
    es = subset(v.edges, pick)
    for labels in (True, False):
        for part in (None, es):
            d = Canvas(v, off).draw("plot_edges", *([] if part is None else [part]), show_labels=labels)
            only(d, "line", "text")
            check_edges(d, v.edges if part is None else part, tol, labels, "edges" if part is None else "chosen edges")
    low = min(v.sweep_line, v.bounding_poly.min_y) - 1
    d = Canvas(v, off).draw("plot_edges", sweep_line=low, show_labels=True, color="#123456")
    only(d, "line", "text")
    check_edges(d, v.edges, tol, True, "edges of the finished diagram with an explicit sweep line")
    need({s[2] for s in segments(d)} <= {"#123456"}, "plot_edges() does not use the colour it is given")
    d = Canvas(v, off).draw("plot_sites", show_labels=False, color="#123456")
    need({c for _, cols, _ in d["scatter"] for c in cols} <= {"#123456"}, "plot_sites() does not use the colour it is given")
    # pointers, arrows, outline, sweep line, event
    for part, kw in ((None, {}), (es, {}), (None, {"sweep_line": low})):
        d = Canvas(v, off).draw("plot_border_to_site", *([] if part is None else [part]), **kw)
        only(d, "line")
        check_pointers(d, v.edges if part is None else part, tol)
    for part in (None, ws):
        d = Canvas(v, off).draw("plot_outgoing_edges", *([] if part is None else [part]), scale=scale)
        only(d, "arrow")
        check_arrows(d, v.vertices if part is None else part, scale, tol)
    d = Canvas(v, off).draw("plot_polygon")
    only(d, "polygon")
    check_outline(d, fr, tol)
    check_plot_all(v, fr, case, tol)
    check_show(v, fr, off, tol)
    plt.close("all")
    return {"nontrivial": D.n >= 2, "labels": classify(fr, cells) + ["offset=%s" % off]}


def check_outline(d, fr, tol):
    need(len(d["polygon"]) == 1, "the outline is drawn %d times" % len(d["polygon"]))
    pts = d["polygon"][0][0]
    if len(pts) > 1 and math.dist(pts[0], pts[-1]) <= tol:
        pts = pts[:-1]
    want = [(float(Decimal(x + fr.dx).scaleb(fr.e)), float(Decimal(y + fr.dy).scaleb(fr.e))) for x, y in fr.ccw]
    need(oracles.same_cycle(pts, want, tol) or oracles.same_cycle(pts[::-1], want, tol),
         lambda: "the outline is drawn as %s, the polygon is %s" % (pts, want))
    need(not d["polygon"][0][2], "the outline is filled and hides the diagram")


def check_show(v, fr, off, tol):
    """show() opens the picture as it has been drawn, at its full extent; calls can be chained."""
    from unittest import mock
    import matplotlib.pyplot as plt
    from foronoi.visualization import Visualizer
    want = Canvas(v, off).draw("plot_edges", show_labels=False)
    for kw in ({}, {"block": False}):
        vis = Visualizer(v, canvas_offset=off, figsize=(3, 3)).plot_edges(show_labels=False)
        shown = []
        with mock.patch.object(plt, "show", lambda *a, **k: shown.append((a, k, describe(plt.gcf())))):
            need(vis.show(**kw) is vis, "show() does not return the visualizer, so calls cannot be chained")
        need(len(shown) == 1, "show() opens %d windows" % len(shown))
        a, k, d = shown[0]
        need((list(a) + [k.get("block", True)])[0] == kw.get("block", True), "show() does not pass on whether to block")
        need(canonical(d)["line"] == canonical(want)["line"], "what is shown is not what was drawn")
        check_limits(d, fr, off, tol)


def check_plot_all(v, fr, case, tol):
    """plot_all draws exactly the parts that are switched on."""
    flags, off, scale = case["flags"], offset_of(case, fr), case["scale"]
    on = {f: flags.get(f, f in DEFAULT_ON) for f in FLAGS}
    got = Canvas(v, off).draw("plot_all", scale=scale, **flags)
    parts = []
    if on["sweep_line"]:
        parts.append(("plot_sweep_line", {}))
    if on["polygon"]:
        parts.append(("plot_polygon", {}))
    if on["edges"]:
        parts.append(("plot_edges", {"show_labels": on["edge_labels"]}))
    if on["border_to_site"]:
        parts.append(("plot_border_to_site", {}))
    if on["vertices"]:
        parts.append(("plot_vertices", {}))
    if on["sites"]:
        parts.append(("plot_sites", {"show_labels": on["site_labels"]}))
    if on["outgoing_edges"]:
        parts.append(("plot_outgoing_edges", {"scale": scale}))
    if on["events"]:
        parts.append(("plot_event", {"triangles": on["triangles"]}))
    if on["beach_line"]:
        parts.append(("plot_arcs", {"plot_arcs": on["arcs"], "show_labels": on["arc_labels"]}))
    want = {k: [] for k in ("scatter", "line", "polygon", "circle", "arrow", "text", "other")}
    for name, kw in parts:
        d = Canvas(v, off).draw(name, **kw)
        for k in want:
            want[k] += d[k]
    cg, cw = canonical(got), canonical(want)
    for k in want:
        need(cg[k] == cw[k], lambda: "with the options %s the %s drawn are %s, the parts that are on draw %s" % (
            sorted(f for f in on if on[f]), k, str(cg[k])[:300], str(cw[k])[:300]))
    check_limits(got, fr, off, tol)


# --- during construction --------------------------------------------------------------------------------------------

def check_steps(case):
    import matplotlib.pyplot as plt
    seen = {"step": 0, "arcs": 0, "circles": 0, "labels": 0, "pointers": 0}
    state = {}
    handled = []

    class Looker:
        def update(self, subject, message, **kw):
            if message.name != "STEP_FINISHED":
                return
            e = subject.event
            site = getattr(e, "point", None)
            if site is not None:
                handled.append(site)
            seen["step"] += 1
            every = 3 if len(case["diagram"]["sites"]) < 12 else 9
            if seen["step"] % every == case["when"] % every or (site is None and every == 3):
                fr = state.setdefault("fr", Frame(case["diagram"]))
                one_step(subject, e, site, handled, fr, case, seen)
    fr, cells, v = build(case, [Looker()])
    plt.close("all")
    return {"nontrivial": seen["arcs"] >= 1, "labels": classify(fr, cells) + ["circle=%d+" % (seen["circles"] // 2 * 2),
                                                                                 "arc labels=%s" % bool(seen["labels"]),
                                                  "pointers=%s" % bool(seen["pointers"])]}


def one_step(v, event, site, handled, fr, case, seen):
    tol = finite_tol(fr)
    off, scale = offset_of(case, fr), case["scale"]
    lx, ly = expected_limits(fr, off)
    span = (lx[1] - lx[0]) + (ly[1] - ly[0])
    l = v.sweep_line
    # sweep line
    for y in (None, 0, fr.num(fr.sites[case["pick"] % len(fr.sites)])[1]):
        d = Canvas(v, off).draw("plot_sweep_line", *([] if y is None else [y]))
        only(d, "line")
        ln = d["line"]
        yy = float(l if y is None else y)
        need(len(ln) == 1 and all(abs(t - yy) <= tol for t in ln[0][1]) and abs(min(ln[0][0]) - lx[0]) <= tol
             and abs(max(ln[0][0]) - lx[1]) <= tol, lambda: "the sweep line at %r is drawn as %s" % (yy, ln))
    # event
    for tri in (False, True):
        for ev in (None, event):
            d = Canvas(v, off).draw("plot_event", *([] if ev is None else [ev]), triangles=tri)
            if site is not None:
                only(d)
                continue
            only(d, "scatter", "circle", "polygon")
            trip = [f2(p) for p in event.point_triple]
            same_points(markers(d), trip, tol, "sites of the circle event")
            need(len(d["circle"]) == 1, "a circle event is drawn with %d circles" % len(d["circle"]))
            cx, cy, r = d["circle"][0][:3]
            far = tol * max(1.0, r / (fr.size * fr.unit)) ** 2 * 10
            need(all(abs(math.dist((cx, cy), p) - r) <= far for p in trip),
                 lambda: "the circle drawn around %s with radius %r misses the sites %s" % ((cx, cy), r, trip))
            if tri:
                need(len(d["polygon"]) == 1, "the triangle is not drawn")
                pts = d["polygon"][0][0]
                need({min(range(3), key=lambda k: math.dist(trip[k], p)) for p in pts} == {0, 1, 2}
                     and all(min(math.dist(p, t) for t in trip) <= tol for p in pts),
                     lambda: "the triangle is drawn at %s, the sites are %s" % (pts, trip))
            else:
                need(not d["polygon"], "the triangle is drawn though it is off")
            seen["circles"] += 1
    # beach line, as lower envelope of the handled sites, and edges under construction, for the sweep line where it is and
    # where it might be
    here = Decimal(str(l))
    arcs = v.arcs
    chosen = subset(sorted(arcs, key=lambda a: f2(a.origin)), case["pick"])
    down = Decimal(case["pick"] % 7 + 1) / 8 * Decimal(fr.size * fr.unit) / 2
    for L, kw in ((here, {}), (here - down, {"sweep_line": here - down})):
        origins = handled if not kw else unique([a.origin for a in arcs])
        active = [p for p in origins if p.yd > L]
        on_line = [p for p in origins if p.yd == L]
        for part in (None, chosen):
            for plot, lab in ((False, True), (True, False), (True, True), (False, False)):
                if (part is not None or kw) and (plot, lab) != (True, True):
                    continue
                d = Canvas(v, off).draw("plot_arcs", *([] if part is None else [part]), plot_arcs=plot, show_labels=lab, **kw)
                only(d, "line", "text")
                who = active if part is None else unique([a.origin for a in part if a.origin.yd > L])
                at = on_line if part is None else unique([a.origin for a in part if a.origin.yd == L])
                beach(d, who, at, plot, lab, lx, ly, float(L), tol, seen, part is None)
        top = Decimal(str(ly[1]))
        ends = {id(h): end_of(h, L, top) for e in v.edges for h in (e, e.twin)}
        where = "at" if not kw else "with an explicit"
        d = Canvas(v, off).draw("plot_edges", show_labels=False, **kw)
        only(d, "line")
        segs = segments(d)
        p = Canvas(v, off).draw("plot_border_to_site", **kw)
        only(p, "line")
        points = segments(p)
        for e in v.edges:
            a, b = ends[id(e)], ends[id(e.twin)]
            if a is None or b is None:
                continue
            big = tol * max(1.0, (abs(a[0]) + abs(a[1]) + abs(b[0]) + abs(b[1])) / span) ** 2
            need(any(same_segment(s, a, b, big) for s in segs),
                 lambda: "%s sweep line %s no line between %s and %s" % (where, L, a, b))
            mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            for h in (e, e.twin):
                if h.incident_point is not None:
                    need(any(same_segment(s, mid, f2(h.incident_point), big) for s in points),
                         lambda: "%s sweep line %s no pointer from %s to %s" % (where, L, mid, f2(h.incident_point)))
                    seen["pointers"] += 1
    check_plot_all(v, fr, case, tol)


def unique(points):
    return list({id(p): p for p in points}.values())


def end_of(h, l, top):
    """Where a half-edge starts while the sweep line is at l; None if that is not well-defined."""
    o = h.origin
    if not hasattr(o, "breakpoint"):
        return f2(o)
    p, q = [(c.xd, c.yd) for c in o.breakpoint]
    if p[1] == q[1]:
        x = (p[0] + q[0]) / 2
        if q[0] < p[0]:  # no such breakpoint: the edge begins infinitely far up, which is cut at the top of the canvas
            return float(x), float(top)
        if p[1] == l:
            return None
        return float(x), float(parabola_y(p, x, l))
    if min(p[1], q[1]) < l:
        return None
    x = breakpoint_x(p, q, l)
    up = q if p[1] == l else p
    # a breakpoint near a horizontal pair is far away and sensitive to rounding
    y = parabola_y(up, x, l)
    if abs(p[1] - q[1]) < Decimal("1e-6") * (abs(p[0] - q[0]) + abs(p[1] - q[1])):
        return None
    return float(x), float(y)


def beach(d, who, at, plot, lab, lx, ly, l, tol, seen, whole):
    curves = [(xs, ys) for xs, ys, _, _ in d["line"] if len(xs) > 2]
    short = [(xs, ys) for xs, ys, _, _ in d["line"] if len(xs) == 2]
    if not who:
        need(not curves, "a beach line is drawn though no arc has opened yet")
    sites = [f2(p) for p in who]
    names = [p.name for p in who]
    if plot:
        for p in at:
            need(any(abs(xs[0] - float(p.xd)) <= tol and abs(xs[1] - float(p.xd)) <= tol for xs, _ in short),
                 lambda: "the arc of the site at %s on the sweep line is not drawn" % (f2(p),))
    need(len(short) == (len(at) if plot else 0), "a straight line belongs to no arc")
    if not who:
        need(not d["text"], "arcs are labelled though none has opened yet")
        return
    X = np.asarray(curves[0][0], dtype=float)
    need(abs(X[0] - lx[0]) <= tol and abs(X[-1] - lx[1]) <= tol and len(X) >= 100, "the beach line does not span the canvas")
    par = np.array([((X - px) ** 2 / (py - l) + py + l) / 2 for px, py in sites])
    # double precision: parabolas opened just now are steep
    slack = tol + 1e-9 * np.abs(par)
    low = par.min(axis=0)
    lowslack = tol + 1e-9 * np.abs(low)

    def is_curve(c, k):
        return c.shape == X.shape and bool(np.all(np.abs(c - par[k]) <= slack[k] + 1e-7 * np.abs(c)))
    arr = []
    for xs, ys in curves:
        need(len(xs) == len(X) and np.allclose(np.asarray(xs, dtype=float), X), "arcs are drawn over different ranges")
        arr.append(np.asarray(ys, dtype=float))
    envelopes = [c for c in arr if bool(np.all(np.abs(c - low) <= lowslack + 1e-7 * np.abs(low)))]
    need(envelopes, lambda: "the beach line is not the lower envelope of the arcs of %s at %r" % (sites, l))
    if plot:
        for k in range(len(sites)):
            hit = any(is_curve(c, k) for c in arr)
            if not hit and whole:
                # sites whose arc has disappeared need not be drawn; those on the beach line must be
                need(not np.any(par[k] <= np.delete(par, k, axis=0).min(axis=0) - slack[k]) if len(sites) > 1 else False,
                     lambda: "the arc of the site at %s is not drawn" % (sites[k],))
            elif not whole:
                need(hit, lambda: "the arc of the site at %s is not drawn" % (sites[k],))
        for c in arr:
            need(any(is_curve(c, k) for k in range(len(sites))) or any(c is e for e in envelopes),
                 "a curve belongs to no site")
    else:
        need(len(arr) == 1, "arcs are drawn though they are off")
    if not lab:
        need(not d["text"], "arcs are labelled though labels are off")
        return
    shown = set()
    for text, x, y in d["text"]:
        if "nan" in (x, y):
            continue
        hit = [k for k, nm in enumerate(names) if text == str(nm)]
        need(hit, lambda: "an arc label %r names no site of the beach line (%s)" % (text, names))
        k = hit[0]
        px, py = sites[k]
        yy = ((x - px) ** 2 / (py - l) + py + l) / 2
        need(abs(yy - y) <= tol + 1e-6 * abs(yy), lambda: "label %r is at %s, where the arc of that site is at height %r" % (
            text, (x, y), yy))
        shown.add(k)
        seen["labels"] += 1
    seen["arcs"] += 1
    for k in range(len(sites)):
        if k in shown:
            continue
        other = np.delete(par, k, axis=0).min(axis=0) if len(sites) > 1 else np.full(X.shape, np.inf)
        clear = (par[k] < other - 2 * slack[k]) & (par[k] < ly[1] - slack[k])
        need(not clear.any(), lambda: "the arc of site %s at %s is part of the beach line but has no label" % (
            names[k], sites[k]))


LEGS = [
    Leg("finished", pictures(), check_finished, 600, 12000, "at least two sites"),
    Leg("steps", pictures(6, 3), check_steps, 200, 6000, "at least one labelled beach line is drawn"),
    Leg("many", pictures(26, 20), check_steps, 16, 400, "at least one labelled beach line is drawn"),
]
