"""Breakpoints, arcs, circles and event order follow their definitions."""
import math
from decimal import Decimal, localcontext
from fractions import Fraction as F
from queue import PriorityQueue

import numpy as np
from hypothesis import strategies as st

from .. import exact as X
from ..diag import need
from ..runner import Leg
from ..sweep import breakpoint_x, parabola_y

ASSUMPTIONS = ["numbers have at most 8 significant digits, so 28-digit decimals and doubles are far more exact than the "
               "tolerances (1e-8 relative; 1e-6 for the arcs' doubles)",
               "three points around a centre lie in different directions from it"]


@st.composite
def frames(draw, remote=False):
    if remote and draw(st.integers(0, 4)) == 0:  # very far from the origin
        far = draw(st.sampled_from([10 ** 10, -10 ** 13, 10 ** 16, 10 ** 19]))
        return [draw(st.sampled_from([0, 0, -2, 3])), draw(st.sampled_from([0, far, 3 * far + 1])), draw(st.sampled_from([far, -far, 0]))]
    return [draw(st.sampled_from([0, 0, -1, -3, 2, -6, -9, 7])), draw(st.sampled_from([0, 0, 500, -2000])),
            draw(st.sampled_from([0, 0, 500, -2000]))]


def dec(k, f, axis):
    return Decimal(k + f[1 + axis]).scaleb(f[0])


coord = st.one_of(st.integers(-10, 10), st.integers(-1000, 1000))
pair = st.tuples(coord, coord).map(list)


FINE = 10 ** 12


@st.composite
def fine(draw, points):
    """The points on a lattice of 1e-12, some of them moved a little: nearly level, nearly collinear, nearly equal."""
    out = []
    for x, y in points:
        m = 10 ** draw(st.integers(0, 10))
        out.append([x * FINE + draw(st.sampled_from([0, 0, 1, -1, 3, -7])) * m,
                    y * FINE + draw(st.sampled_from([0, 0, 1, -1, 3, -7])) * m])
    return out


def fine_frame(draw):
    return [-12, draw(st.sampled_from([0, 0, 500 * FINE, 10 ** 12 * FINE])), draw(st.sampled_from([0, 0, -2000 * FINE, 10 ** 12 * FINE]))]


# --- breakpoints and arcs -------------------------------------------------------------------------------------------

@st.composite
def breakpoints(draw):
    p, q = draw(pair), draw(pair)
    if draw(st.integers(0, 4)) == 0:
        q[1] = p[1]
    if draw(st.integers(0, 4)) == 0:
        q[0] = p[0]
    if draw(st.integers(0, 3)) == 0:
        p, q = draw(fine([p, q]))
        return {"p": p, "q": q, "down": draw(st.sampled_from([0, 1, 1000, FINE // 1000, FINE, 30 * FINE])),
                "f": fine_frame(draw), "xs": [p[0], q[0]], "top": None}
    return {"p": p, "q": q, "down": draw(st.one_of(st.integers(0, 3), st.integers(0, 30), st.integers(0, 3000))),
            "f": draw(frames(True)), "xs": draw(st.lists(coord, min_size=1, max_size=6)), "top": draw(st.one_of(st.none(), coord))}


def check_breakpoint(case):
    from foronoi.graph import Point
    from foronoi.nodes import Arc, Breakpoint
    f = case["f"]
    p, q = [(dec(a, f, 0), dec(b, f, 1)) for a, b in (case["p"], case["q"])]
    li = min(case["p"][1], case["q"][1]) - case["down"]
    l = dec(li, f, 1)
    unit = Decimal(1).scaleb(f[0])
    P, Q = Point(*p), Point(*q)
    labels = []
    # arcs, which are plotted in doubles
    for S in (P, Q) if max(abs(f[1]), abs(f[2])) < (10 ** 9 if f[0] > -12 else 10 ** 9 * FINE) else ():
        xs = np.array([float(dec(x, f, 0)) for x in case["xs"]])
        got = Arc(S).get_plot(xs, l)
        if S.yd == l:
            need(got is None, "an arc on the sweep line has a plot")
            labels.append("on the line")
        else:
            need(len(got) == len(xs), "an arc's plot has another number of values")
            for x, y in zip(xs, got):
                want = float(parabola_y((S.xd, S.yd), Decimal(float(x)), l))
                one = float(Arc(S).get_plot(float(x), float(l)))
                # cancellation in doubles: values of the size of the squared coordinates over the distance to the line
                big = (abs(float(x)) + abs(S.x) + abs(S.y) + abs(float(l)) + 1e-9) ** 2 / float(S.yd - l)
                big = 1e-9 * big + abs(want) * 1e-15 * (abs(S.y) + abs(float(l))) / float(S.yd - l)
                need(abs(y - want) <= big and abs(one - want) <= big,
                     lambda: "the arc of %s for the sweep line %s is at (%r, %r), equidistant is %r" % (S.xy, l, x, y, want))
    # breakpoint
    if case["p"] == case["q"]:
        return {"nontrivial": False, "labels": labels}
    bp = Breakpoint(breakpoint=(P, Q))
    crosses = not (p[1] == q[1] and q[0] < p[0])
    need(bool(bp.does_intersect()) == crosses, lambda: "does_intersect() is %r for %s and %s" % (bp.does_intersect(), p, q))
    top = None if case["top"] is None else dec(case["top"], f, 1)
    r = bp.get_intersection(l, max_y=top)
    need(r is not None, "no breakpoint")
    if p[1] == q[1]:
        labels.append("level sites")
        mid = (p[0] + q[0]) / 2
        need(r.xd == mid, lambda: "the breakpoint of level sites %s %s is at x=%s" % (p, q, r.xd))
        if not crosses:
            labels.append("no crossing")
            want = Decimal("Infinity") if top is None else top
            need(Decimal(str(r.yd)) == want, lambda: "a breakpoint that is nowhere is drawn at %s, should be %s" % (r.yd, want))
            return {"nontrivial": True, "labels": labels}
        if p[1] == l:
            need(r.yd == Decimal("Infinity"), "the breakpoint of two sites on the sweep line is not infinitely high")
            return {"nontrivial": True, "labels": labels}
    with localcontext() as ctx:
        ctx.prec = 60
        x = breakpoint_x(p, q, l)
        up = q if p[1] == l else p
        y = parabola_y(up, x, l)
        far = abs(x - p[0]) + abs(x - q[0]) + abs(y - l) + unit
        # the height moves with x by the slope of the arc
        tol = far * Decimal("1e-8") * (1 + abs(x - up[0]) / (up[1] - l))
        # 28 digits of the coordinates
        blur = Decimal("1e-25") * max(abs(v) for v in (x, y, l) + tuple(p) + tuple(q))
        tol += blur * (1 + (abs(x - up[0]) + abs(y - l)) / (up[1] - l))
        need(abs(r.xd - x) <= far * Decimal("1e-8") + blur, lambda: "the breakpoint of %s and %s at sweep line %s has x=%s, it is at %s" % (
            p, q, l, r.xd, x))
        need(abs(r.yd - y) <= tol, lambda: "the breakpoint of %s and %s at sweep line %s has y=%s, it is at %s" % (
            p, q, l, r.yd, y))
        # independent of the solution: equidistance, and the left arc is the lower one on the left
        d = [((r.xd - s[0]) ** 2 + (r.yd - s[1]) ** 2).sqrt() for s in (p, q)]
        for s, v in zip((p, q), d):
            if s[1] != l:
                need(abs(v - (r.yd - l)) <= 4 * tol, lambda: "the breakpoint is %s from the site %s and %s from the sweep line" % (
                    v, s, r.yd - l))
        if p[1] != l and q[1] != l:
            slope = (x - p[0]) / (p[1] - l) - (x - q[0]) / (q[1] - l)
            need(slope > -Decimal("1e-9"), "oracle: wrong root")
        else:
            labels.append("on the line")
    return {"nontrivial": True, "labels": sorted(set(labels))}


# --- circles and turns ----------------------------------------------------------------------------------------------

@st.composite
def triples(draw):
    a, b, c = draw(pair), draw(pair), draw(pair)
    if draw(st.integers(0, 3)) == 0:  # collinear
        k, m = draw(st.integers(-3, 3)), draw(st.integers(1, 3))
        c = [a[0] + (b[0] - a[0]) * k * m, a[1] + (b[1] - a[1]) * k * m]
    if draw(st.integers(0, 3)) == 0:
        return {"t": draw(fine([a, b, c])), "center": draw(fine([draw(pair)]))[0], "f": fine_frame(draw),
                "line": draw(coord) * FINE, "missing": 9}
    return {"t": [a, b, c], "center": draw(pair), "f": draw(frames(True)), "line": draw(coord),
            "missing": draw(st.integers(0, 9))}


def turn(a, b, c, o):
    """True when, walking clockwise around o from a, b is met before c; None when two are in the same direction."""
    v = [(p[0] - o[0], p[1] - o[1]) for p in (a, b, c)]
    if any(w == (0, 0) for w in v):
        return None
    for i in range(3):
        for j in range(i):
            if v[i][0] * v[j][1] == v[i][1] * v[j][0] and v[i][0] * v[j][0] + v[i][1] * v[j][1] > 0:
                return None

    # clockwise angle of w from a is below that of u, exactly
    def before(w, u):
        cw = v[0][0] * w[1] - v[0][1] * w[0]
        cu = v[0][0] * u[1] - v[0][1] * u[0]

        def half(cr):
            # 0: clockwise angle in (0, 180), 1: 180, 2: (180, 360)
            return 0 if cr < 0 else 2 if cr > 0 else 1
        hw, hu = half(cw), half(cu)
        if hw != hu:
            return hw < hu
        # in the same half: u is further clockwise when it lies clockwise of w
        return w[0] * u[1] - w[1] * u[0] < 0
    return before(v[1], v[2])


def check_circle(case):
    from foronoi.events import CircleEvent
    from foronoi.graph import Coordinate, Point
    from foronoi.graph.algebra import Algebra
    from foronoi.nodes import Arc, LeafNode
    f = case["f"]
    t = [tuple(p) for p in case["t"]]
    pts = [Point(dec(x, f, 0), dec(y, f, 1)) for x, y in t]
    unit = 10.0 ** f[0]
    cc = X.circumcenter(*t)
    got = CircleEvent.create_circle(*pts)
    need(bool(got) == (cc is not None), lambda: "the circle through %s is reported as %r" % (t, got))
    nodes = [LeafNode(Arc(p)) for p in pts]
    ev = CircleEvent.create_circle_event(*nodes, sweep_line=dec(case["line"], f, 1))
    need((ev is not None) == (cc is not None), lambda: "the circle event of %s is %r" % (t, ev))
    k = case["missing"]
    if k < 3:
        some = list(nodes)
        some[k] = None
        need(CircleEvent.create_circle_event(*some, sweep_line=dec(case["line"], f, 1)) is None,
             "a circle event is created without three arcs")
    labels = ["collinear" if cc is None else "circle"]
    if cc is not None:
        (cx, cy), r2 = cc
        r = math.sqrt(r2)
        scale = max(r, math.hypot(*t[0]), 1)
        exact = (float(cx), float(cy), r)

        def local(v, axis):
            # lattice coordinates without the offset
            with localcontext() as ctx:
                ctx.prec = 80
                return float(Decimal(v).scaleb(-f[0]) - f[1 + axis])
        for x, y, rad in (got, (ev.center.xd, ev.center.yd, ev.radius)):
            need(max(abs(local(x, 0) - exact[0]), abs(local(y, 1) - exact[1]), abs(float(rad) / unit - exact[2])) <= 1e-8 * scale,
                 lambda: "the circle through %s is %s, %s, %s; exact is %s" % (t, x, y, rad, exact))
        need(abs(local(ev.yd, 1) - (exact[1] - exact[2])) <= 1e-8 * scale and abs(local(ev.xd, 0) - exact[0]) <= 1e-8 * scale,
             lambda: "a circle event happens at (%s, %s), the lowest point of its circle is (%s, %s)" % (
                 ev.xd, ev.yd, exact[0], exact[1] - exact[2]))
        with localcontext() as ctx:
            ctx.prec = 80
            low = Decimal(cy.numerator) / cy.denominator - (Decimal(r2.numerator) / r2.denominator).sqrt()
            low = (low + f[2]).scaleb(f[0])
            far = abs(low - pts[0].yd)
            # conditioning: 28 digits of the squared extent, against the area of the triangle
            m = (max(abs(v) for u in t for v in u) + max(abs(f[1]), abs(f[2]))) * Decimal(1).scaleb(f[0])
            span = (max(abs(u[k] - t[0][k]) for u in t for k in (0, 1))) * Decimal(1).scaleb(f[0])
            area = abs((t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0]))
            cond = Decimal("1e-25") * span ** 2 / (area * Decimal(1).scaleb(2 * f[0]))
            need(abs(Decimal(str(ev.yd)) - low) <= (Decimal("1e-8") + cond) * 10 * far + Decimal("1e-24") * m,
                 lambda: "the event of %s happens at y=%s, the lowest point of their circle is at %s" % (t, ev.yd, low))
        need([id(p) for p in ev.point_triple] == [id(p) for p in pts], "a circle event names other sites")
        need([id(a) for a in ev.arc_triple] == [id(n.data) for n in nodes], "a circle event names other arcs")
        need(ev.arc_pointer is nodes[1], "a circle event does not point to the middle arc")
        need(ev.is_valid, "a new circle event is a false alarm")
        need(ev.remove() is ev, "remove() of a circle event does not return it")
        need(not ev.is_valid, "a removed circle event is still valid")
        want = X.cross(*t) < 0
        need(bool(Algebra.check_clockwise(*pts, Coordinate(*[got[0], got[1]]))) == want,
             lambda: "the turn of %s around their circle's centre is reported as clockwise=%r" % (t, not want))
    o = tuple(case["center"])
    for p, q in zip(t, pts):
        if p != o:
            want = math.degrees(math.atan2(p[1] - o[1], p[0] - o[0])) % 360
            got = float(Algebra.calculate_angle(q, Coordinate(dec(o[0], f, 0), dec(o[1], f, 1))))
            need(0 <= got <= 360 and abs((got - want + 180) % 360 - 180) <= 1e-6,
                 lambda: "the direction from %s to %s is reported as %r degrees, it is %r" % (o, p, got, want))
    want = turn(*t, o)
    if want is not None:
        labels.append("clockwise" if want else "counterclockwise")
        got = Algebra.check_clockwise(*pts, Coordinate(dec(o[0], f, 0), dec(o[1], f, 1)))
        need(bool(got) == want, lambda: "the turn of %s around %s is reported as clockwise=%r" % (t, o, got))
    return {"nontrivial": cc is not None or want is not None, "labels": labels}


# --- rays -----------------------------------------------------------------------------------------------------------

@st.composite
def rays(draw):
    a, b, p, q = draw(pair), draw(pair), draw(pair), draw(pair)
    k = draw(st.integers(0, 4))
    if k == 0:  # through an end of the segment
        b = p if draw(st.booleans()) else q
    elif k == 1:
        m = draw(st.integers(1, 4))
        b = [a[0] + (p[0] - a[0]) * m, a[1] + (p[1] - a[1]) * m]
    elif k == 2:
        q = [p[0], q[1]] if draw(st.booleans()) else [q[0], p[1]]
    return {"a": a, "b": b, "p": p, "q": q, "f": draw(frames())}


def check_ray(case):
    from foronoi.graph import Coordinate
    from foronoi.graph.algebra import Algebra
    f = case["f"]
    a, b, p, q = [tuple(case[k]) for k in "abpq"]
    A, B, P, Q = [Coordinate(dec(x, f, 0), dec(y, f, 1)) for x, y in (a, b, p, q)]
    dist = float(Algebra.distance(A, B))
    need(abs(dist - math.dist(a, b) * 10.0 ** f[0]) <= 1e-9 * (dist + 10.0 ** f[0]),
         lambda: "the distance of %s and %s is given as %r" % (A.xy, B.xy, dist))
    if a == b or p == q:
        return {"nontrivial": False, "labels": ["degenerate"]}
    need(Algebra.get_intersection(None, B, P, Q) is None and Algebra.get_intersection(A, None, P, Q) is None,
         "an intersection without a ray")
    got = Algebra.get_intersection(A, B, P, Q)
    d = (b[0] - a[0], b[1] - a[1])
    s = (q[0] - p[0], q[1] - p[1])
    den = d[0] * s[1] - d[1] * s[0]
    if den == 0:
        # parallel in exact arithmetic; a scaled frame may differ by rounding
        if f[0] >= 0:
            need(got is None, lambda: "parallel ray and segment meet in %s" % (got,))
        return {"nontrivial": True, "labels": ["parallel"]}
    w = (p[0] - a[0], p[1] - a[1])
    t = F(w[0] * s[1] - w[1] * s[0], den)
    u = F(w[0] * d[1] - w[1] * d[0], den)
    if t == 0:
        return {"nontrivial": False, "labels": ["starts on the segment"]}
    want = t > 0 and 0 <= u <= 1
    # |v1| eps / (|s| sin): rounding of the position on the segment
    blur = 4e-16 * (math.hypot(*w) + math.hypot(*s)) * math.hypot(*d) / abs(den)
    if t > 0 and u in (0, 1) and (f[0] < 0 or blur > 2e-13):
        # the end of the segment is hit exactly only in exact numbers; both answers are within rounding
        if got is None:
            return {"nontrivial": False, "labels": ["through an end, rounded"]}
    need((got is not None) == want, lambda: "the ray from %s through %s %s the segment %s %s, reported is %s" % (
        a, b, "meets" if want else "misses", p, q, got))
    if want:
        e = [float(a[i] + t * d[i] + f[1 + i]) * 10.0 ** f[0] for i in (0, 1)]
        tol = 1e-7 * (abs(e[0]) + abs(e[1]) + 10.0 ** f[0] * (1 + math.hypot(*d) + math.hypot(*s)))
        need(math.dist(got.xy, e) <= tol, lambda: "the ray from %s through %s meets %s %s in %s, reported is %s" % (
            a, b, p, q, e, got.xy))
    return {"nontrivial": True, "labels": ["meets" if want else "misses"] + (["through an end"] if u in (0, 1) else [])}


# --- event order ----------------------------------------------------------------------------------------------------

@st.composite
def events(draw):
    small = st.integers(0, 4)
    one = st.one_of(st.tuples(st.just("s"), small, small).map(list),
                    st.tuples(st.just("c"), small, small, st.integers(0, 3)).map(list))
    return {"events": draw(st.lists(one, min_size=2, max_size=9)), "f": draw(frames(True))}


def check_events(case):
    from foronoi.events import CircleEvent, SiteEvent
    from foronoi.graph import Coordinate, Point
    f = case["f"]
    evs, keys = [], []
    for e in case["events"]:
        if e[0] == "s":
            evs.append(SiteEvent(Point(dec(e[1], f, 0), dec(e[2], f, 1))))
        else:
            r = Decimal(e[3]).scaleb(f[0])
            evs.append(CircleEvent(center=Coordinate(dec(e[1], f, 0), dec(e[2] + e[3], f, 1)), radius=r, arc_node=None))
        keys.append((-e[2], e[1]))
        need((evs[-1].xd, evs[-1].yd) == (dec(e[1], f, 0), dec(e[2], f, 1)), "an event is at another place")
    for a, ka in zip(evs, keys):
        for b, kb in zip(evs, keys):
            if ka != kb:
                need(bool(a < b) == (ka < kb), lambda: "event at (x=%s, y=%s) before (x=%s, y=%s) is %r" % (
                    a.xd, a.yd, b.xd, b.yd, a < b))
            need(bool(a == b) == (ka == kb) and bool(a != b) == (ka != kb), "equality of events is wrong")
            need(not (a < b and b < a), "two events come before each other")
    q = PriorityQueue()
    for e in evs:
        q.put(e)
    got = []
    while not q.empty():
        e = q.get()
        got.append((-e.yd, e.xd))
    need(got == sorted(got) and len(got) == len(evs), "the event queue gives events in another order")
    return {"nontrivial": len(set(keys)) >= 2, "labels": ["ties" if len(set(keys)) < len(keys) else "no ties"]}


LEGS = [
    Leg("breakpoints", breakpoints(), check_breakpoint, 6000, 150000, "two different sites"),
    Leg("circles", triples(), check_circle, 6000, 150000, "a circle exists or the turn is defined"),
    Leg("rays", rays(), check_ray, 6000, 150000, "a ray and a segment that are not degenerate"),
    Leg("events", events(), check_events, 3000, 60000, "at least two different positions"),
]
