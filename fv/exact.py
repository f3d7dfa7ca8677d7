"""Exact reference geometry over rationals (Fractions).  Independent of the code under test.

A convex polygon is a counter-clockwise list of (x, y).  A reference cell is a counter-clockwise list of
(point, tag) where tag names what the edge *leaving* that point lies on: ("s", j) = bisector with site j,
("b", k) = side k of the bounding polygon.
"""
from fractions import Fraction as F


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def d2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def area2(poly):
    s = 0
    for (x1, y1), (x2, y2) in zip(poly, poly[1:] + poly[:1]):
        s += x1 * y2 - x2 * y1
    return s


def hull(points, keep_collinear=False):
    """Convex hull, counter-clockwise, lowest-leftmost first."""
    pts = sorted(set(points))
    if len(pts) <= 2:
        return pts

    def half(ps):
        out = []
        for p in ps:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = half(pts), half(pts[::-1])
    h = lo[:-1] + up[:-1]
    if not keep_collinear or len(h) < 3:
        return h
    out = []
    for a, b in zip(h, h[1:] + h[:1]):
        mid = [p for p in pts if p not in (a, b) and cross(a, b, p) == 0]
        out.append(a)
        out += sorted(mid, key=lambda p: d2(a, p))
    return out


def side(poly, p):
    """1 strictly inside, 0 on the boundary, -1 outside (convex ccw polygon)."""
    res = 1
    for a, b in zip(poly, poly[1:] + poly[:1]):
        c = cross(a, b, p)
        if c < 0:
            return -1
        if c == 0:
            res = 0
    return res


def clip(cell, A, B, C, tag):
    """Keep the part of the tagged cell where A*x + B*y <= C."""
    vals = [A * p[0] + B * p[1] - C for p, _ in cell]
    if all(v <= 0 for v in vals):
        return cell
    n = len(cell)
    out = []
    for i in range(n):
        (p, t), v = cell[i], vals[i]
        q, w = cell[(i + 1) % n][0], vals[(i + 1) % n]
        if v < 0:
            out.append((p, t))
            if w > 0:
                s = F(v) / (v - w)
                out.append(((p[0] + (q[0] - p[0]) * s, p[1] + (q[1] - p[1]) * s), tag))
        elif v == 0:
            # on the line: a corner of the kept part; the edge leaving it is kept only if it goes inside
            if w < 0:
                out.append((p, t))
            else:
                prev = vals[i - 1]
                if prev < 0:
                    out.append((p, tag))
        else:
            if w < 0:
                s = F(v) / (v - w)
                out.append(((p[0] + (q[0] - p[0]) * s, p[1] + (q[1] - p[1]) * s), t))
    return out


def bisector(p, q):
    """Half plane of points closer to p than to q: A x + B y <= C."""
    return 2 * (q[0] - p[0]), 2 * (q[1] - p[1]), q[0] ** 2 + q[1] ** 2 - p[0] ** 2 - p[1] ** 2


def cell_of(i, sites, poly):
    cell = [(v, ("b", k)) for k, v in enumerate(poly)]
    p = sites[i]
    order = sorted((j for j in range(len(sites)) if j != i), key=lambda j: d2(p, sites[j]))
    rmax = max(d2(p, v) for v, _ in cell)
    for j in order:
        dj = d2(p, sites[j])
        if dj > 4 * rmax:
            break
        A, B, C = bisector(p, sites[j])
        new = clip(cell, A, B, C, ("s", j))
        if new is not cell:
            cell = new
            if len({v for v, _ in cell}) < 3:  # without area
                return []
            rmax = max(d2(p, v) for v, _ in cell)
    return cell


def voronoi(sites, poly):
    """List of tagged cells; sites and poly (ccw, convex) are integer or Fraction pairs.

    A cell without area (of a site outside of the polygon) is an empty list."""
    return [cell_of(i, sites, poly) for i in range(len(sites))]


def circumcenter(a, b, c):
    """Exact circumcenter and squared radius, or None when collinear."""
    bx, by, cx, cy = b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]
    d = 2 * (bx * cy - by * cx)
    if d == 0:
        return None
    ux = F(cy * (bx * bx + by * by) - by * (cx * cx + cy * cy), d)
    uy = F(bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by), d)
    return (a[0] + ux, a[1] + uy), ux * ux + uy * uy


def delaunay_circles(sites):
    """Exact Voronoi vertices of the unbounded diagram: {center: (r2, [cocircular sites])} (O(n^4), small n)."""
    n = len(sites)
    out = {}
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                cc = circumcenter(sites[i], sites[j], sites[k])
                if cc is None:
                    continue
                c, r2 = cc
                if c in out:
                    continue
                on = []
                for m in range(n):
                    dm = d2(c, sites[m])
                    if dm < r2:
                        break
                    if dm == r2:
                        on.append(m)
                else:
                    out[c] = (r2, on)
    return out
