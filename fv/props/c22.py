"""Half-edge operations keep rings, twins and vertex lists consistent."""
from decimal import Decimal

from hypothesis import strategies as st

from ..diag import need
from ..runner import Leg
from ..sweep import breakpoint_x

ASSUMPTIONS = ["after a half-edge has been given another "
               "twin, nothing is said about its former twin"]


@st.composite
def histories(draw):
    rings = draw(st.lists(st.tuples(st.integers(1, 7), st.integers(0, 6), st.booleans()).map(list), min_size=1, max_size=3))
    nv = draw(st.integers(1, 6))
    i = st.integers(0, 30)
    op = st.one_of(st.tuples(st.just("delete"), i, i), st.tuples(st.just("delete"), i, i),
                   st.tuples(st.just("insert"), i, i), st.tuples(st.just("twin"), i, i),
                   st.tuples(st.just("move"), i, i), st.tuples(st.just("first"), i, i), st.tuples(st.just("swap"), i, i),
                   st.tuples(st.just("break"), i, i))
    return {"rings": rings, "vertices": nv, "open": draw(st.sampled_from([[], [], [0], [1, 2]])), "ops": [list(o) for o in draw(st.lists(op, max_size=16))],
            "where": draw(st.lists(i, min_size=30, max_size=30)), "y": draw(st.integers(-20, -1))}


def check(case):
    from foronoi.graph import HalfEdge, Point, Vertex
    from foronoi.nodes import Breakpoint
    verts = [Vertex(k, 2 * k) for k in range(case["vertices"])]
    lists = {id(w): [] for w in verts}
    where = case["where"]
    sites, rings, twin, origin = [], [], {}, {}
    open_ = set(case.get("open", ()))       # rings whose last half-edge has no next one
    total = [0]

    def new(site):
        w = verts[where[total[0] % 30] % len(verts)]
        total[0] += 1
        h = HalfEdge(site, origin=w)
        w.connected_edges.append(h)
        lists[id(w)].append(h)
        origin[id(h)] = w
        return h

    def link(ring, k):
        for a, b in zip(ring, ring[1:]):
            a.set_next(b)
        ring[-1].set_next(None if k in open_ else ring[0])
        if k in open_:
            ring[0].prev = None
    for n, f, has_site in case["rings"]:
        s = Point(n, f, name=len(sites)) if has_site else None
        ring = [new(s) for _ in range(n)]
        link(ring, len(sites))
        if s is not None:
            s.first_edge = ring[f % n]
        sites.append(s)
        rings.append(ring)
    # twins given at construction
    a = HalfEdge(None, origin=verts[0])
    b = HalfEdge(None, origin=verts[-1], twin=a)
    need(a.twin is b and b.twin is a and a.target is verts[-1] and b.target is verts[0],
         "a half-edge created with a twin is not that half-edge's twin")
    need(HalfEdge(None).target is None, "a half-edge without twin has a target")
    first = [s.first_edge if s is not None else None for s in sites]
    alive = [h for r in rings for h in r]
    dels = 0
    moved_first = 0

    def look(when):
        for k, (s, ring) in enumerate(zip(sites, rings)):
            for h, nxt in zip(ring, ring[1:] + (ring[:1] if k not in open_ else [None])):
                need(h.next is nxt and (nxt is None or nxt.prev is h), lambda: "%s: next and prev do not agree on a ring" % when)
                need(h.incident_point is s, "%s: a half-edge belongs to another site" % when)
            if s is not None:
                need(s.first_edge is first[k], lambda: "%s: the site's first edge is another one" % when)
                if first[k] is None:
                    need(s.borders() == [] and s.vertices() == [], "%s: a site without first edge has borders" % when)
                    continue
                p = [j for j, h in enumerate(ring) if h is first[k]][0]
                want = ring[p:] + (ring[:p] if k not in open_ else [])
                got = s.borders()
                need(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                     lambda: "%s: borders() does not list the ring from the first edge on (%d instead of %d)" % (
                         when, len(got), len(want)))
                got = s.vertices()
                want = [origin[id(h)] for h in want if isinstance(origin[id(h)], Vertex)]
                need(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                     "%s: vertices() are not the starts of the borders" % when)
        for w in verts:
            need(len(w.connected_edges) == len(lists[id(w)]) and {id(h) for h in w.connected_edges}
                 == {id(h) for h in lists[id(w)]}, lambda: "%s: a vertex lists %d half-edges, %d start there" % (
                     when, len(w.connected_edges), len(lists[id(w)])))
        for h in alive:
            need(h.origin is origin[id(h)], "%s: a half-edge starts elsewhere" % when)
            if id(h) in twin:
                t = twin[id(h)]
                need(h.twin is t and t.twin is h, "%s: twins are not each other's twin" % when)
                need(h.target is t.origin, "%s: the target is not the twin's start" % when)
            o = h.origin
            if isinstance(o, Vertex):
                need(h.get_origin() is o and h.get_origin(y=Decimal(-5), max_y=Decimal(9)) is o,
                     "%s: get_origin() of a half-edge from a vertex is not the vertex" % when)
            else:
                need(h.get_origin() is None, "%s: get_origin() without sweep line gives a place for a moving start" % when)
                y = Decimal(case["y"])
                c = h.get_origin(y=y, max_y=Decimal(9))
                p, q = [(z.xd, z.yd) for z in o.breakpoint]
                x = breakpoint_x(p, q, y)
                need(abs(c.xd - x) <= Decimal("1e-9") * (1 + abs(x)), "%s: get_origin() is not where the breakpoint is" % when)
    look("at first")
    for k, (op, i, j) in enumerate(case["ops"]):
        when = "after operation %d (%s)" % (k + 1, op)
        r = i % len(rings)
        ring = rings[r]
        if not ring:
            continue
        h = ring[j % len(ring)]
        if op == "delete":
            dels += 1
            p = j % len(ring)
            after = ring[(p + 1) % len(ring)] if p + 1 < len(ring) or r not in open_ else None
            if after is h:
                after = None
            h.delete()
            ring.pop(p)
            alive = [x for x in alive if x is not h]
            w = origin.pop(id(h))
            if isinstance(w, Vertex):
                lists[id(w)] = [x for x in lists[id(w)] if x is not h]
            t = twin.pop(id(h), None)
            if t is not None:
                twin.pop(id(t), None)
            if first[r] is h:
                first[r] = after
                moved_first += 1
        elif op == "insert":
            n = new(sites[r])
            p = j % len(ring)
            after = ring[(p + 1) % len(ring)] if p + 1 < len(ring) or r not in open_ else None
            h.set_next(n)
            n.set_next(after)
            ring.insert(p + 1, n)
            alive.append(n)
        elif op == "twin":
            o = alive[(i + 7 * j) % len(alive)]
            if o is h:
                continue
            for x in (h, o):
                t = twin.pop(id(x), None)
                if t is not None:
                    twin.pop(id(t), None)
            h.twin = o
            twin[id(h)], twin[id(o)] = o, h
        elif op == "move":
            w = verts[j % len(verts)]
            old = origin[id(h)]
            if isinstance(old, Vertex):
                old.connected_edges.remove(h)
                lists[id(old)] = [x for x in lists[id(old)] if x is not h]
            h.origin = w
            origin[id(h)] = w
            w.connected_edges.append(h)
            lists[id(w)].append(h)
        elif op == "break":
            old = origin[id(h)]
            if isinstance(old, Vertex):
                old.connected_edges.remove(h)
                lists[id(old)] = [x for x in lists[id(old)] if x is not h]
            bp = Breakpoint(breakpoint=(Point(j, 0), Point(i + j + 1, 3)))
            h.origin = bp
            origin[id(h)] = bp
        elif op == "first":
            if sites[r] is not None:
                sites[r].first_edge = h
                first[r] = h
        elif op == "swap":
            # reverse the order of the half-edges of a ring by linking them anew
            ring.reverse()
            link(ring, r)
        look(when)
    # a chain that is taken apart at the end: set_next(None)
    for h in alive[:1]:
        h.set_next(None)
        need(h.next is None, "set_next(None) does not end the chain")
    return {"nontrivial": dels >= 1, "labels": ["deleted=%d+" % (dels // 2 * 2), "first moved=%d" % min(moved_first, 3)]}


LEGS = [Leg("rings", histories(), check, 6000, 150000, "at least one half-edge is deleted")]
