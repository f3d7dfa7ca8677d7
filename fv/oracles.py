"""Checks of observable results against the exact reference or structural rules.  All raise Violation."""
import math

from . import exact as X
from .diag import need, fail, Diagram  # noqa: F401


def near(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def fl(p):
    return float(p[0]), float(p[1])


def show(pts):
    return "[" + ", ".join("(%.6g, %.6g)" % (p[0], p[1]) for p in pts) + "]"


def same_cycle(got, want, tol):
    """Equal up to rotation (both are lists of points in the same orientation)."""
    if len(got) != len(want):
        return False
    if not want:
        return True
    ks = [k for k in range(len(got)) if near(got[k], want[0], tol)]
    return any(all(near(p, q, tol) for p, q in zip(got[k:] + got[:k], want)) for k in ks)


def dedupe(loop, tol):
    """Drop corners that coincide with the previous one."""
    out = []
    for p in loop:
        if not out or not near(p, out[-1], tol):
            out.append(p)
    while len(out) > 1 and near(out[0], out[-1], tol):
        out.pop()
    return out


def ref_loop(cell):
    """Clockwise corners of a reference cell."""
    return [fl(p) for p, _ in cell][::-1]


def check_cells(D, cells, zero_edges=False):
    fr = D.frame
    for i in range(D.n):
        got = D.loop(i)
        if zero_edges:
            got = dedupe(got, fr.tol)
        want = ref_loop(cells[i])
        if not same_cycle(got, want, fr.tol):
            hint = ""
            if same_cycle(got[::-1], want, fr.tol):
                hint = " (the corners are right but not in clockwise order)"
            fail("cell of site %d at %s has corners %s, its nearest-site region has corners %s (lattice units)%s"
                 % (i, fr.sites[i], show(got), show(want), hint))


def edge_sites(D, e):
    def idx(s):
        if s is None:
            return None
        need(id(s) in D.index, "an edge belongs to something that is not a site of the diagram")
        return D.index[id(s)]
    return idx(e.incident_point), idx(e.twin.incident_point)


def expected_edges(cells):
    """[(i, j or None, start, end)] with the half-edge of i running clockwise from start to end."""
    out = []
    for i, c in enumerate(cells):
        for (p, t), (q, _) in zip(c, c[1:] + c[:1]):
            if t[0] == "b":
                out.append((i, None, fl(q), fl(p)))
            elif i < t[1]:
                out.append((i, t[1], fl(q), fl(p)))
    return out


def check_edges(D, cells):
    fr, v = D.frame, D.v
    want = {}
    for i, j, p, q in expected_edges(cells):
        want.setdefault((i, j), []).append((p, q))
    seen = set()
    for e in v.edges:
        need(e.twin is not None, "an edge has no twin")
        need(id(e) not in seen and id(e.twin) not in seen, "the edge list contains the same edge twice")
        seen.add(id(e))
        seen.add(id(e.twin))
        a, b = edge_sites(D, e)
        need(a is not None or b is not None, "an edge belongs to no site")
        h = e
        if a is None or (b is not None and b < a):
            a, b, h = b, a, e.twin
        need(a != b, lambda: "an edge separates site %s from itself" % a)
        p, q = fr.back(h.origin), fr.back(h.twin.origin)
        cand = want.get((a, b), [])
        for k, (ps, qs) in enumerate(cand):
            if near(p, ps, fr.tol) and near(q, qs, fr.tol):
                cand.pop(k)
                break
        else:
            fail("unexpected edge %s-%s from %s to %s; %s" % (
                a, "outline" if b is None else b, show([p]), show([q]),
                "expected " + "; ".join(show(c) for c in cand) if cand else
                "these have no (further) common border"))
    for (a, b), rest in want.items():
        need(not rest, lambda: "missing edge between site %s and %s: %s" % (
            a, "the outline" if b is None else "site %d" % b, show(rest[0])))


def check_structure(D, oriented=True):
    """Half-edge pointers, loops and vertex lists, without any geometry reference but the orientation
    (with oriented=False, of cells that are not nearly empty only)."""
    fr, v = D.frame, D.v
    ring_edges = {}
    for i, r in enumerate(D.rings):
        s = D.sites[i]
        for e in r:
            need(id(e) not in ring_edges, "a half-edge lies on the borders of two cells")
            ring_edges[id(e)] = e
            need(e.incident_point is s, lambda: "a half-edge on the border of site %d belongs to %r" % (
                i, e.incident_point))
            need(e.twin is not None, "a half-edge has no twin")
            need(e.twin is not e, "a half-edge is its own twin")
            need(e.twin.twin is e, "a half-edge's twin's twin is another half-edge")
            need(e.target is e.twin.origin, "a half-edge's target is not its twin's start")
            need(e.next.origin is e.target, lambda: "on the border of site %d the next half-edge starts at %s, not where "
                 "its predecessor ends, %s" % (i, show([fr.back(e.next.origin)]), show([fr.back(e.target)])))
            need(e.next.prev is e, "the next half-edge does not point back as prev")
            need(e.twin.incident_point is not s, "both half-edges of an edge belong to the same site")
        loop = D.loop(i)
        if not r:
            continue
        a2 = X.area2(loop) if oriented else X.area2([(p[0] - loop[0][0], p[1] - loop[0][1]) for p in loop])
        need(a2 < (0 if oriented else 1e-9 * fr.size ** 2), "the border of site %d is not clockwise" % i)
    listed = {}
    for e in v.edges:
        for h in (e, e.twin):
            need(id(h) not in listed, "the edge list contains an edge twice")
            listed[id(h)] = h
    for h in listed.values():
        if h.incident_point is not None:
            need(id(h) in ring_edges, lambda: "an edge of the diagram is not on its cell's border loop")
        else:
            need(h.twin.incident_point is not None, "an edge belongs to no site")
    for h in ring_edges.values():
        need(id(h) in listed, "a cell's border contains an edge that is not in the edge list")
        need(id(h.twin) in listed, "a twin is not an edge of the diagram")
    check_vertex_lists(D, listed)


def check_vertex_lists(D, listed):
    fr, v = D.frame, D.v
    vs = v.vertices
    ids = {id(x) for x in vs}
    need(len(ids) == len(vs), "a vertex is listed twice")
    starts = {}
    for h in listed.values():
        starts.setdefault(id(h.origin), []).append(h)
        need(id(h.origin) in ids, lambda: "an edge starts in %s, which is not a listed vertex" % show(
            [fr.back(h.origin)]))
    for x in vs:
        own = starts.get(id(x), [])
        need(own, lambda: "vertex %s is not the start of any edge" % show([fr.back(x)]))
        con = list(x.connected_edges)
        need(len({id(h) for h in con}) == len(con), lambda: "vertex %s lists a half-edge twice" % show([fr.back(x)]))
        need({id(h) for h in con} == {id(h) for h in own},
             lambda: "vertex %s lists %d half-edges, %d start in it" % (show([fr.back(x)]), len(con), len(own)))


def expected_vertices(cells):
    return sorted({p for c in cells for p, _ in c})


def check_vertices(D, cells):
    fr = D.frame
    want = [fl(p) for p in expected_vertices(cells)]
    got = sorted(fr.back(x) for x in D.v.vertices)
    free = list(got)
    for w in want:
        m = [g for g in free if near(g, w, fr.tol)]
        need(m, lambda: "no vertex at the diagram's corner %s; vertices are %s" % (show([w]), show(got)))
        free.remove(m[0])
    need(not free, lambda: "superfluous vertices %s; the diagram's corners are %s" % (show(free), show(want)))
    ids = {id(x) for x in D.v.vertices}
    starts = set()
    for e in D.v.edges:
        for h in (e, e.twin):
            need(id(h.origin) in ids, "an edge starts in a vertex that is not listed")
            starts.add(id(h.origin))
    need(starts == ids, "a listed vertex is not the start of any edge")


def fclip(loop, A, B, C):
    """Float clipping of a convex loop to A x + B y <= C."""
    out = []
    n = len(loop)
    for k in range(n):
        p, q = loop[k], loop[(k + 1) % n]
        v, w = A * p[0] + B * p[1] - C, A * q[0] + B * q[1] - C
        if v <= 0:
            out.append(p)
        if (v < 0 < w) or (w < 0 < v):
            t = v / (v - w)
            out.append((p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t))
    return out


def farea(loop):
    """Area of a loop, computed relative to its first corner to avoid cancellation."""
    if len(loop) < 3:
        return 0.0
    x0, y0 = loop[0]
    s = 0.0
    for (x1, y1), (x2, y2) in zip(loop, loop[1:] + loop[:1]):
        s += (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    return abs(s) / 2


def inside_convex(loop, p, tol):
    """Is p inside the convex loop (either orientation) up to tol?"""
    sgn = 1 if X.area2(loop) > 0 else -1
    for a, b in zip(loop, loop[1:] + loop[:1]):
        L = math.hypot(b[0] - a[0], b[1] - a[1])
        if L == 0:
            continue
        if sgn * X.cross(a, b, p) / L < -tol:
            return False
    return True


def adjacency(D):
    """{frozenset(i, j)}: pairs of sites separated by an edge longer than the tolerance."""
    out = set()
    fr = D.frame
    for e in D.v.edges:
        a, b = edge_sites(D, e)
        if a is not None and b is not None and not near(fr.back(e.origin), fr.back(e.twin.origin), fr.tol):
            out.add(frozenset((a, b)))
    return out


def same_diagram(D1, D2, to2=lambda p: p, order=None, tol=None, mirrored=False, what="the diagrams differ"):
    """Cells of D1, mapped by to2, equal those of D2; site i of D1 is site order[i] of D2."""
    n = D1.n
    tol = tol or max(D1.frame.tol, D2.frame.tol)
    order = order or list(range(n))
    need(D1.n == D2.n, what + ": different numbers of sites")
    for i in range(n):
        a = [to2(p) for p in D1.loop(i)]
        b = D2.loop(order[i])
        if mirrored:
            a = a[::-1]
        if not same_cycle(a, b, tol):
            # coinciding corners merge differently only if they are closer than the tolerance
            if not same_cycle(dedupe(a, tol), dedupe(b, tol), 4 * tol):
                fail("%s: cell of site %d at %s is %s, expected %s" % (what, i, D1.frame.sites[i], show(b), show(a)))
    a1 = {frozenset(order[i] for i in f) for f in adjacency(D1)}
    a2 = adjacency(D2)
    need(a1 == a2, lambda: "%s: different neighbours %s" % (what, sorted(map(sorted, a1 ^ a2))[:3]))


def check_cells_tolerant(D, tol=None):
    """Cells are the nearest-site regions up to tol, without an exact reference: every corner of a cell is in the polygon and
    has no nearer site, and the areas add up.  Sound for diagrams with arbitrarily short edges."""
    fr = D.frame
    tol = tol or fr.size * 1e-7
    sites = [(float(x), float(y)) for x, y in fr.sites]
    Q = [(float(x), float(y)) for x, y in fr.ccw]
    total = 0.0
    for i in range(D.n):
        loop = D.loop(i)
        for p in loop:
            need(inside_convex(Q, p, tol), lambda: "a corner of the cell of site %d is outside the polygon: %s" % (i, show([p])))
            own = math.hypot(p[0] - sites[i][0], p[1] - sites[i][1])
            for j, s in enumerate(sites):
                need(math.hypot(p[0] - s[0], p[1] - s[1]) >= own - tol, lambda: "a corner %s of the cell of site %d at %s is "
                     "nearer to site %d at %s" % (show([p]), i, sites[i], j, s))
        total += farea(loop)
    want = farea(Q)
    need(abs(total - want) <= 10 * tol * fr.size, lambda: "the cells' areas add up to %.9g, the polygon has %.9g (lattice "
         "units)" % (total, want))
