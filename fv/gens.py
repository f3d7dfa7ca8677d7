"""Hypothesis strategies.  Every case is a plain JSON value; every random choice is Hypothesis's own.

Diagram case: {"poly": [[X, Y]...], "sites": [[X, Y]...], "e": E, "dx": DX, "dy": DY, "num": kind, "box": bool}
The coordinate handed to the code is (X + dx) * 10**e, as a number of the given kind.  All integers, so the oracle is
exact.  Domain: a convex polygon with non-zero area, distinct sites inside it or on its boundary.
"""
import math

from hypothesis import strategies as st, assume

from . import exact as X

CIRCLE = [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (-5, 0), (0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]
CIRCLE25 = [(sx * a, sy * b) for a, b in ((7, 24), (15, 20), (20, 15), (24, 7), (25, 0), (0, 25)) for sx in (1, -1)
            for sy in (1, -1)]


def ulist(strategy, capacity, lo, hi):
    """Distinct values; capacity is how many the strategy has."""
    return st.lists(strategy, min_size=max(0, min(lo, capacity)), max_size=max(0, min(hi, capacity)), unique=True)


def pts(w, h, lo, hi):
    return ulist(st.tuples(st.integers(0, w), st.integers(0, h)), (w + 1) * (h + 1), lo, hi)


@st.composite
def polygons(draw, R, kinds=None):
    """(vertex list in a drawn order, is it an axis-parallel box with 4 corners)"""
    kind = draw(st.sampled_from(kinds or ["box", "box", "box", "box", "hull", "hull", "hull", "mid", "mid", "tri", "tri", "diamond", "oct",
                                           "ngon", "thin"]))
    lo = max(1, R // 12)
    if kind in ("box", "mid"):
        w, h = draw(st.integers(lo, R)), draw(st.integers(lo, R))
        base = [(0, 0), (w, 0), (w, h), (0, h)]
        if kind == "mid":
            extra = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, max(1, lo - 1))), max_size=3))
            pool = list(base)
            for s, t in extra:
                p = [(t, 0), (w, t), (t, h), (0, t)][s]
                if 0 <= p[0] <= w and 0 <= p[1] <= h and p not in pool:
                    pool.append(p)
            base = X.hull(pool, keep_collinear=True)
    elif kind == "tri":
        a, b = draw(st.integers(lo, R)), draw(st.integers(lo, R))
        c = draw(st.integers(0, R))
        base = [(0, 0), (a, 0), (min(c, a), b)]
        f = draw(st.integers(0, 3))
        if f & 1:
            base = [(a - x, y) for x, y in base]
        if f & 2:
            base = [(x, b - y) for x, y in base]
    elif kind == "diamond":
        a, b = draw(st.integers(lo, max(lo, R // 2))), draw(st.integers(lo, max(lo, R // 2)))
        base = [(a, 0), (2 * a, b), (a, 2 * b), (0, b)]
    elif kind == "oct":
        k = max(1, R // 4)
        s = draw(st.integers(1, k))
        t = draw(st.integers(1, k))
        base = [(s, 0), (s + t, 0), (2 * s + t, s), (2 * s + t, s + t), (s + t, 2 * s + t), (s, 2 * s + t), (0, s + t),
                (0, s)]
    elif kind == "ngon":
        # as round as the lattice allows, with up to 40 corners
        n = draw(st.integers(7, 40))
        turn = draw(st.integers(0, 9)) / 10
        base = [(round(R / 2 + R / 2 * math.cos(2 * math.pi * (k + turn) / n)),
                 round(R / 2 + R / 2 * math.sin(2 * math.pi * (k + turn) / n))) for k in range(n)]
    elif kind == "thin":
        # a sliver along an axis or a diagonal
        a, b = draw(st.sampled_from([(R, 0), (0, R), (R, R), (R, R // 2), (R // 3, R)]))
        t = max(1, R // 30)
        base = [(x + t, y + t) for x, y in draw(st.lists(st.tuples(st.integers(-t, t), st.integers(-t, t)), min_size=1,
                                                        max_size=3))]
        base += [(x + t + a, y + t + b) for x, y in draw(st.lists(st.tuples(st.integers(-t, t), st.integers(-t, t)),
                                                                 min_size=1, max_size=3))]
    else:
        base = X.hull(draw(pts(R, R, 3, 9)))
    base = X.hull(base, keep_collinear=kind == "mid")
    if len(base) < 3 or kind != "thin" and X.area2(base) * 25 < max(
            max(p[0] for p in base) - min(p[0] for p in base), max(p[1] for p in base) - min(p[1] for p in base)) ** 2:
        base = [(0, 0), (R, 0), (R, R), (0, R)]
    n = len(base)
    how = draw(st.integers(0, 3))
    if how == 1:
        base = base[::-1]
    elif how == 2:
        k = draw(st.integers(0, n - 1))
        base = base[k:] + base[:k]
    elif how == 3:
        base = draw(st.permutations(base))
    is_box = kind == "box"
    return [tuple(p) for p in base], is_box


def ccw(poly):
    return X.hull([tuple(p) for p in poly], keep_collinear=True)


@st.composite
def site_sets(draw, poly, lo, hi, boundary=True, kinds=None):
    """Distinct lattice points inside the polygon (or on its boundary)."""
    x0, x1 = min(p[0] for p in poly), max(p[0] for p in poly)
    y0, y1 = min(p[1] for p in poly), max(p[1] for p in poly)
    w, h = x1 - x0, y1 - y0
    Q = ccw(poly)
    kind = draw(st.sampled_from(kinds or ["rand", "rand", "rand", "grid", "grid", "row", "col", "circle", "mirror",
                                          "diag", "rim", "cluster", "rows", "slope", "lattice"]))
    n = draw(st.integers(lo, hi))
    raw = []
    # convex polygons fill at least a few per cent of their bounding box: draw some spare points
    m = n + n // 2 + 1
    if kind == "rand":
        raw = draw(pts(w, h, n, m))
    elif kind == "grid":
        g = max(1, max(w, h) // draw(st.integers(2, 6)))
        ox, oy = draw(st.integers(0, g)), draw(st.integers(0, g))
        raw = [(ox + g * i, oy + g * j) for i, j in draw(pts(w // g, h // g, n, m + 2))]
    elif kind == "lattice":
        g = max(1, min(w, h) // draw(st.integers(1, 4)))
        raw = [(i, j) for i in range(0, w + 1, g) for j in range(0, h + 1, g)]
        raw = draw(st.permutations(raw[:60]))
    elif kind in ("row", "col"):
        L, M = (w, h) if kind == "row" else (h, w)
        t = draw(st.integers(0, M))
        vals = draw(ulist(st.integers(0, L), L + 1, n, m))
        raw = [(v, t) if kind == "row" else (t, v) for v in vals] + draw(pts(w, h, 0, 2))
    elif kind == "rows":
        ts = draw(ulist(st.integers(0, h), h + 1, 1, 3))
        top = draw(st.booleans())
        if top:
            ts[0] = max(ts)
        raw = [(x, ts[k % len(ts)]) for x, k in draw(ulist(st.tuples(st.integers(0, w), st.integers(0, 2)),
                                                            3 * (w + 1), n, m))]
    elif kind == "circle":
        base = draw(st.sampled_from([CIRCLE, CIRCLE, CIRCLE25]))
        rad = 5 if base is CIRCLE else 25
        kmax = max(1, min(w, h) // (2 * rad))
        k = draw(st.integers(1, kmax))
        cx, cy = draw(st.integers(0, w)), draw(st.integers(0, h))
        if draw(st.booleans()):
            cx, cy = w // 2, h // 2
        sub = draw(ulist(st.sampled_from(base), 12, min(3, n), min(12, n + 2)))
        raw = [(cx + k * a, cy + k * b) for a, b in sub] + draw(pts(w, h, 0, 3))
    elif kind == "mirror":
        half = draw(pts(w, h, (n + 1) // 2, n))
        f = draw(st.integers(1, 3))
        raw = half + [((w - x) if f & 1 else x, (h - y) if f & 2 else y) for x, y in half]
        raw = draw(st.permutations(raw))
    elif kind == "diag":
        L = min(w, h)
        s = draw(st.sampled_from([1, -1]))
        raw = [(v, v if s == 1 else h - v) for v in
               draw(ulist(st.integers(0, L), L + 1, n, m))]
        raw += draw(pts(w, h, 0, 2))
    elif kind == "slope":
        a, b = draw(st.integers(1, 4)), draw(st.integers(-4, 4))
        ox, oy = draw(st.integers(0, w)), draw(st.integers(0, h))
        raw = [(ox + a * k, oy + b * k) for k in
               draw(ulist(st.integers(-max(w, h), max(w, h)), 2 * max(w, h) + 1, n, m))]
        raw += draw(pts(w, h, 0, 2))
    elif kind == "rim":
        for s, t in draw(ulist(st.tuples(st.integers(0, 3), st.integers(0, max(w, h))), 4 * (max(w, h) + 1), n, m)):
            raw.append([(min(t, w), 0), (w, min(t, h)), (min(t, w), h), (0, min(t, h))][s])
        raw += [(a - x0, b - y0) for a, b in draw(st.lists(st.sampled_from(poly), max_size=2))] + draw(pts(w, h, 0, 3))
    else:
        cx, cy = draw(st.integers(0, w)), draw(st.integers(0, h))
        r = max(1, min(w, h) // 10)
        raw = [(cx + a, cy + b) for a, b in draw(ulist(st.tuples(st.integers(-r, r), st.integers(-r, r)),
                                                        (2 * r + 1) ** 2, n, m))]
        raw += draw(pts(w, h, 0, 2))
    out, seen = [], set()
    need = 0 if boundary else 1
    for a, b in raw:
        p = (a + x0, b + y0)
        if p not in seen and X.side(Q, p) >= need:
            seen.add(p)
            out.append(p)
    if len(out) < lo:
        for p in draw(pts(w, h, lo, 3 * lo + 8)):
            p = (p[0] + x0, p[1] + y0)
            if p not in seen and X.side(Q, p) >= need:
                seen.add(p)
                out.append(p)
    assume(len(out) >= lo)
    return out[:hi]


@st.composite
def frames(draw, R, remote=True):
    """Scale, offset and number kind."""
    mode = draw(st.integers(0, 6 if remote else 5))
    if mode == 6:  # so far from the origin that doubles are too coarse for anything but the exact numbers given
        k = draw(st.sampled_from([10 ** 9, 10 ** 12, 10 ** 15]))
        dx, dy = draw(st.sampled_from([(k * R, 0), (0, -k * R), (k * R, k * R), (-3 * k * R + 1, k * R + 7)]))
        if k * R > 10 ** 14:
            kind = draw(st.sampled_from(["dec", "int"]))
            e = draw(st.sampled_from([0, 0, 3] + [-2, -15] * (kind == "dec")))
        else:
            e, kind = 0, draw(st.sampled_from(["float", "dec", "np", "mixed", "int"]))
        return {"e": e, "dx": dx, "dy": dy, "num": kind}
    if mode <= 2:
        e, dx, dy = 0, 0, 0
    else:
        e = draw(st.sampled_from([0, 0, -1, -2, -3, 1, 2, 3, -6, 5, -9, 9, -13]))
        dx, dy = draw(st.sampled_from([(0, 0), (-R // 2, -R // 2), (-R, 0), (0, -R), (-2 * R, -3 * R), (7 * R, 3 * R),
                                       (-1000 * R, 1000 * R), (0, 500 * R), (2 * R, -R), (0, 2 * R),
                                       (10 ** 6 * R, -10 ** 5 * R)]))
    kinds = ["float", "float", "dec", "np", "mixed"]
    if e >= 0:
        kinds += ["int", "int"]
    return {"e": e, "dx": dx, "dy": dy, "num": draw(st.sampled_from(kinds))}


@st.composite
def diagrams(draw, lo=1, hi=8, Rs=(4, 6, 10, 12, 20, 40, 100, 100, 1000), boundary=True, poly_kinds=None,
             site_kinds=None, framed=True, remote=True):
    R = draw(st.sampled_from(Rs))
    poly, is_box = draw(polygons(R, poly_kinds))
    sites = draw(site_sets(poly, lo, hi, boundary, site_kinds))
    case = draw(frames(R, remote)) if framed else {"e": 0, "dx": 0, "dy": 0, "num": "float"}
    case["poly"] = [list(p) for p in poly]
    case["sites"] = [list(p) for p in sites]
    case["box"] = bool(is_box and draw(st.booleans()))
    return case


TURNS = [(1, 0, 1), (3, 4, 5), (5, 12, 13), (7, 24, 25), (20, 21, 29), (99, 20, 101), (9999, 200, 10001), (2, 1, None),
         (1, 1, None)]


@st.composite
def noisy(draw, lo=2, hi=10, Rs=(4, 6, 10, 12, 20, 40, 100), site_kinds=None, poly_kinds=None, num=True, hows=(0, 1, 2, 3, 4, 5, 6, 7),
          close=(6, 11)):
    """Sites that are nearly (not exactly) in special position, as when they are computed with rounding errors.

    The lattice is fine (12 digits after the decimal point, up to 26 for divided sets); noise between 1e-12 and 1e-2 is added to some of the sites, or all
    sites are turned around a point and rounded, or some sites get company at such a distance.
    """
    base = draw(diagrams(lo, hi, Rs=Rs, boundary=True, poly_kinds=poly_kinds, site_kinds=site_kinds, framed=False))
    how = draw(st.sampled_from(hows))
    e = 12 if how <= 4 else 26 if how == 6 else draw(st.sampled_from([5, 12, 22]))
    f = 10 ** e
    poly = [[x * f, y * f] for x, y in base["poly"]]
    Q = ccw(poly)
    sites = [[x * f, y * f] for x, y in base["sites"]]
    k = draw(st.integers(0, 10))
    if how == 7:
        # rows and columns stay, at distances with long numbers
        low = st.integers(-f // 2, f // 2)
        xs, ys = [{v: v + draw(low) for v in sorted({p[i] for p in sites})} for i in (0, 1)]
        sites = [[xs[x], ys[y]] for x, y in sites]
    elif how >= 5:
        # as many digits as the arithmetic has, so that meeting points which coincide are rounded differently: a regular set
        # that is shrunk by a long factor, or divided by a number
        cx, cy = sites[0]
        if how == 5:
            num, den = draw(st.integers(f // 10, f)), f
        else:
            num, den = 1, draw(st.sampled_from([3, 7, 9, 11, 13, 17]))
        sites = [[cx + (x - cx) * num // den, cy + (y - cy) * num // den] for x, y in sites]
    elif how == 4:
        # sites very close to each other
        m = 10 ** draw(st.integers(*close))
        for x, y in sites[:draw(st.integers(1, 3))]:
            for _ in range(draw(st.integers(1, 3))):
                sites.append([x + m * draw(st.integers(-2, 2)), y + m * draw(st.integers(-2, 2))])
    elif how >= 2:
        c, s, r = draw(st.sampled_from(TURNS))
        cx, cy = sites[0]
        shrink = draw(st.sampled_from([1, 2, 3, 7]))
        new = []
        for x, y in sites:
            x, y = x - cx, y - cy
            if r is None:
                r2 = c * c + s * s
                scale = 10 ** 20
                root = math.isqrt(r2 * scale * scale)
                a, b = (c * x - s * y) * scale // (root * shrink), (s * x + c * y) * scale // (root * shrink)
            else:
                a, b = (c * x - s * y) // (r * shrink), (s * x + c * y) // (r * shrink)
            new.append([a + cx, b + cy])
        sites = new
    else:
        m = 10 ** k
        for p in sites:
            if draw(st.integers(0, 2)):
                p[0] += m * draw(st.integers(-9, 9))
                p[1] += m * draw(st.integers(-9, 9))
    out = []
    for p in sites:
        if p not in out and X.side(Q, tuple(p)) >= 0:
            out.append(p)
    assume(len(out) >= lo)
    base.update(poly=poly, sites=out, e=-e)
    if num:
        base["num"] = draw(st.sampled_from(["float", "float", "dec", "np"] if e <= 12 else ["dec"]))
    return base

