"""While the sweep runs, the half-built diagram is consistent, and finished where it is finished."""
import math
from decimal import Decimal
from fractions import Fraction as F

from . import c23
from .. import exact as X, gens, oracles
from ..diag import Frame, Reject, run, need
from ..runner import Leg
from ..sweep import Watcher, nodes_in_order

ASSUMPTIONS = ["positions far from the polygon are compared relative to their distance from it",
               "borders shorter than 1e-5 of the size are not required (noisy inputs only)"]


def is_vertex(o):
    from foronoi.graph import Vertex
    return isinstance(o, Vertex)


def borders(sites):
    """Exact borders of the unbounded diagram: {(i, j): (start or None, end or None)}, i < j, for borders with a length."""
    out = {}
    n = len(sites)
    for i in range(n):
        for j in range(i + 1, n):
            (ax, ay), (bx, by) = sites[i], sites[j]
            mx, my, dx, dy = F(ax + bx, 2), F(ay + by, 2), ay - by, bx - ax
            lo = hi = None
            for k in range(n):
                if k in (i, j):
                    continue
                # nearer to i than to k along the bisector m + t d: 2 p.(k - i) <= k^2 - i^2
                cx, cy = sites[k]
                ux, uy = cx - ax, cy - ay
                q = F(cx * cx + cy * cy - ax * ax - ay * ay, 2) - (mx * ux + my * uy)
                s = dx * ux + dy * uy
                if s == 0:
                    if q < 0:
                        lo, hi = F(0), F(0)
                        break
                elif s > 0:
                    hi = q / s if hi is None else min(hi, q / s)
                else:
                    lo = q / s if lo is None else max(lo, q / s)
            if lo is not None and hi is not None and lo >= hi:
                continue
            out[i, j] = tuple(None if t is None else (mx + t * dx, my + t * dy) for t in (lo, hi))
    return out


class State:
    def __init__(self, fr, scale):
        self.fr, self.vertices, self.events, self.circles, self.handled = fr, {}, 0, 0, {}
        self.tol, self.open, self.seen = scale, 0, set()

    def slack(self, d):
        """Tolerance at distance d from the polygon (lattice units)."""
        return 10 * max(self.fr.tol, self.tol * self.fr.size) * max(1.0, d / self.fr.size)


def check_step(v, st, final=False):
    fr = st.fr
    l = v.sweep_line
    lf = fr.back(type("P", (), {"xd": Decimal(0), "yd": l}))[1]
    inner = {}
    for nd, _ in nodes_in_order(v.status_tree, 40 * len(fr.sites) + 100) if v.status_tree is not None else ():
        b = nd.get_value()
        if hasattr(b, "breakpoint"):
            inner[id(b)] = b
    halves = {}
    vs = {id(w): w for w in v.vertices}
    need(len(vs) == len(v.vertices), "a vertex is listed twice during the sweep")
    starts = {k: [] for k in vs}
    need(len(v.edges) == max(0, len(st.handled) - 1) + st.circles, lambda: "%d edges after %d sites and %d circle events" % (
        len(v.edges), len(st.handled), st.circles))
    need(len(vs) == st.circles, lambda: "%d vertices after %d circle events" % (len(vs), st.circles))
    used = set()
    for e in v.edges:
        for h in (e, e.twin):
            need(h is not None and h.twin is not h and h.twin.twin is h, "during the sweep: twin of a twin is another half-edge")
            need(id(h) not in halves, "during the sweep: an edge is listed twice")
            halves[id(h)] = h
            a, b = h.twin.incident_point, h.incident_point
            need(id(a) in st.handled and id(b) in st.handled and a is not b,
                 "during the sweep: an edge is not between two different sites above the sweep line")
            need(h.target is h.twin.origin, "during the sweep: a half-edge's target is not its twin's start")
            o = h.origin
            if is_vertex(o):
                need(id(o) in vs, "during the sweep: an edge starts at a vertex that is not listed")
                need(h.get_origin() is o and h.get_origin(y=l) is o, "get_origin() of a half-edge that starts at a vertex")
                starts[id(o)].append(h)
                need(h.prev is not None and h.prev.next is h, "during the sweep: a half-edge that starts at a vertex has no previous one")
                need(h.prev.target is o and h.prev.incident_point is b,
                     "during the sweep: the previous half-edge ends elsewhere or belongs to another cell")
                p = fr.back(o)
                d = math.dist(p, st.handled[id(a)])
                tol = st.slack(math.hypot(*p))
                need(abs(d - math.dist(p, st.handled[id(b)])) <= tol, "during the sweep: the end of an edge is nearer to one of its sites")
            else:
                st.open += 1
                need(tuple(o.breakpoint) == (a, b), lambda: "during the sweep: the edge between %s and %s starts at %r" % (a, b, o))
                need(h.prev is None, "during the sweep: a half-edge with an open start has a previous one")
                need(h.get_origin() is None, "get_origin() of a half-edge with an open start, without a sweep line")
                flat = a.yd == b.yd and b.xd < a.xd
                need(flat or id(o) in inner, lambda: "the open edge between %s and %s is not on the beach line" % (a, b))
                need(flat or id(o) not in used, "two open edges end at one breakpoint")
                if not flat:
                    used.add(id(o))
                    need(o.edge is h, "a breakpoint does not point to the half-edge that starts there")
                    p = h.get_origin(y=l)
                    # (next to the sweep line parabolas are as steep as rays)
                    steep = min(st.handled[id(a)][1], st.handled[id(b)][1]) - lf < 1e-9 * max(fr.size, abs(lf))
                    if not (steep or math.isinf(float(p.yd)) or math.isinf(float(p.xd))):
                        p = fr.back(p)
                        if max(abs(p[0]), abs(p[1])) < 1e6 * fr.size:
                            da, db = math.dist(p, st.handled[id(a)]), math.dist(p, st.handled[id(b)])
                            tol = 10 * st.slack(math.hypot(*p))
                            need(abs(da - db) <= tol and abs(da - (p[1] - lf)) <= tol,
                                 lambda: "the open end of the edge between %s and %s is at %s, distances %.9g, %.9g, sweep line %.9g" % (
                                     a, b, oracles.show([p]), da, db, p[1] - lf))
    need(used == set(inner), "a breakpoint of the beach line has no open edge")
    for h in halves.values():
        if h.next is not None:
            need(id(h.next) in halves and h.next.prev is h and h.next.origin is h.target and h.next.incident_point is h.incident_point,
                 "during the sweep: the next half-edge starts elsewhere or belongs to another cell")
        else:
            need(not is_vertex(h.target), "during the sweep: a half-edge that ends at a vertex has no next one")
    for k, w in vs.items():
        need(len(w.connected_edges) == 3 and {id(h) for h in w.connected_edges} == {id(h) for h in starts[k]},
             lambda: "during the sweep: a vertex has %d edges, %d start there" % (len(w.connected_edges), len(starts[k])))
        if k not in st.vertices:
            st.vertices[k] = (w, w.xd, w.yd)
            p = fr.back(w)
            own = math.dist(p, st.handled[id(w.connected_edges[0].incident_point)])
            for q in fr.sites:
                need(math.dist(p, q) >= own - st.slack(math.hypot(*p)),
                     lambda: "a new vertex at %s is nearer to the site at %s" % (oracles.show([p]), q))
    for k, (w, x, y) in st.vertices.items():
        need(k in vs and (w.xd, w.yd) == (x, y), "during the sweep: a vertex moves or vanishes")
    for s in v.sites:
        if id(s) not in st.handled:
            need(s.first_edge is None and s.borders() == [] and s.vertices() == [], "a site below the sweep line has a border")
        elif len(st.handled) > 1:
            need(s.first_edge is not None and id(s.first_edge) in halves and s.first_edge.incident_point is s,
                 lambda: "during the sweep: the first edge of %s is not one of its own" % s)
            got = s.borders()
            need(0 < len(got) <= 2 * len(v.edges) and all(h.incident_point is s for h in got)
                 and got[0] is s.first_edge and all(g.next is h for g, h in zip(got, got[1:])),
                 lambda: "during the sweep: borders() of %s are not its own in order" % s)
            need([id(w) for w in s.vertices()] == [id(h.origin) for h in got if is_vertex(h.origin)],
                 lambda: "during the sweep: vertices() of %s" % s)


def check(case, noisy=False):
    fr = Frame(case)
    where = {}
    for p in fr.sites:
        where.setdefault(p, len(where))
    sites = list(where)
    if noisy:
        want = None
    else:
        want = borders(sites)
        small = (F(fr.size) / 10 ** 5) ** 2
        for a, b in want.values():
            if a is not None and b is not None and X.d2(a, b) < small:
                raise Reject("tiny edge")
    st = State(fr, 1e-7 if noisy else 1e-9)
    places = set()
    result = {}

    def step(v):
        e = v.event
        if hasattr(e, "point"):
            i = [k for k, s in enumerate(v.sites) if s is e.point][0]
            if fr.sites[i] not in places:
                places.add(fr.sites[i])
                st.handled[id(e.point)] = (float(fr.sites[i][0]), float(fr.sites[i][1]))
        else:
            st.circles += 1
        check_step(v, st)

    class End:
        def update(self, subject, message, **kw):
            if message.name == "SWEEP_FINISHED":
                check_step(subject, st)
                result["edges"] = [(h.incident_point, h.twin.incident_point,
                                    fr.back(h.origin) if is_vertex(h.origin) else None,
                                    fr.back(h.target) if is_vertex(h.target) else None) for h in subject.edges]
    watcher = Watcher(step, len(fr.sites))
    run(fr, observers=[watcher, End()])
    need("edges" in result, "no SWEEP_FINISHED")
    if want is not None:
        index = {k: sites.index(p) if p in where else None for k, p in
                 ((k, next(q for q in sites if (float(q[0]), float(q[1])) == xy)) for k, xy in st.handled.items())}
        found = {}
        for a, b, p, q in result["edges"]:
            i, j = index[id(a)], index[id(b)]
            if (min(i, j), max(i, j)) not in want:
                # no length; far away, two vertices at one place may be rounded to a distance of more than the tolerance
                need(p is not None and q is not None and math.dist(p, q) <= 100 * st.slack(max(math.hypot(*p), math.hypot(*q)) ** 2 / fr.size),
                     lambda: "after the sweep there is a border between the sites at %s and %s, which are no neighbours" % (sites[i], sites[j]))
                continue
            found.setdefault((min(i, j), max(i, j)), []).append((p, q))
        for k, (a, b) in want.items():
            got = found.get(k, [])
            if len(got) > 1:
                got = [(p, q) for p, q in got if p is None or q is None or math.dist(p, q) > st.slack(math.hypot(*p))]
            need(len(got) == 1, lambda: "after the sweep there are %d borders between the sites at %s and %s" % (
                len(got), sites[k[0]], sites[k[1]]))
            p, q = got[0]
            for ends in ((p, q), (q, p)):
                if all((g is None) == (w is None) and (g is None or oracles.near(
                        g, oracles.fl(w), 10 * st.slack(math.hypot(*g) ** 2 / fr.size))) for g, w in zip(ends, (a, b))):
                    break
            else:
                need(False, "after the sweep the border between the sites at %s and %s goes from %s to %s, not from %s to %s" % (
                    sites[k[0]], sites[k[1]], p, q, a and oracles.fl(a), b and oracles.fl(b)))
    return {"nontrivial": st.circles >= 1, "labels": ["circle events=%s" % (st.circles if st.circles < 4 else "4+"),
                                                      "n=%s" % (len(sites) if len(sites) < 4 else "4-7" if len(sites) < 8 else "8+")]
            + (["repeated"] if len(sites) < len(fr.sites) else []) + (["noisy"] if noisy else [])}


def check_noisy(case):
    return check(case, noisy=True)


RULE = "at least one circle event"
LEGS = [
    Leg("small", gens.diagrams(1, 8), check, 1500, 30000, RULE),
    Leg("degenerate", gens.diagrams(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1200, 25000, RULE),
    Leg("outside", c23.repeated(c23.outside(8)), check, 1000, 20000, RULE),
    Leg("noisy", gens.noisy(3, 9), check_noisy, 800, 15000, RULE + ", sites nearly in special position"),
    Leg("medium", gens.diagrams(15, 40, Rs=(20, 100, 1000)), check, 60, 1500, RULE),
    Leg("large", gens.diagrams(60, 110, Rs=(20, 100, 1000)), check, 12, 300, RULE),
]
