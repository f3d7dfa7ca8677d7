"""Runs the code under test on a diagram case and extracts what a user can observe, with bounded walks."""
from decimal import Decimal
from fractions import Fraction as F

import numpy as np

from . import env, exact as X  # noqa: F401  (env sets the import path)


class Violation(Exception):
    pass


class Reject(Exception):
    """The case is outside the property's stated domain (ill-conditioned for double precision)."""


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def number(k, e, kind, salt=0):
    """k * 10**e as a number of the given kind."""
    d = Decimal(k).scaleb(e)
    if kind == "mixed":
        kind = ["float", "dec", "np", "int"][(k + salt) % 4]
    if kind == "int":
        return int(d) if d == d.to_integral_value() else float(d)
    if kind == "dec":
        return d
    if kind == "np":
        return np.float64(float(d))
    return float(d)


class Frame:
    """Maps between lattice coordinates and the numbers handed to / read from the code."""

    def __init__(self, case):
        self.e, self.dx, self.dy, self.kind = case["e"], case["dx"], case["dy"], case["num"]
        self.poly = [tuple(p) for p in case["poly"]]
        self.sites = [tuple(p) for p in case["sites"]]
        self.ccw = X.hull(self.poly, keep_collinear=True)
        xs, ys = [p[0] for p in self.poly], [p[1] for p in self.poly]
        self.size = max(max(xs) - min(xs), max(ys) - min(ys))
        self.unit = 10.0 ** self.e
        self.box = case.get("box", False)
        # rounding of the inputs' neighbourhood, in lattice units
        far = max([abs(x + self.dx) for x in xs] + [abs(y + self.dy) for y in ys] + [1])
        exact = self.kind == "dec" or self.e >= 0 and (self.kind == "int" or far * 10 ** self.e < 2 ** 53)
        self.far = far * (1e-20 if exact else 1e-12)
        self.tol = max(self.size * 1e-8, self.far)

    def num(self, p, salt=0):
        return number(p[0] + self.dx, self.e, self.kind, salt), number(p[1] + self.dy, self.e, self.kind, salt + 1)

    def back(self, c):
        """Lattice coordinates (float) of a coordinate object of the code."""
        s = Decimal(1).scaleb(-self.e)
        return float(c.xd * s - self.dx), float(c.yd * s - self.dy)

    def make_poly(self, swap=0):
        import foronoi
        if self.box:
            xs, ys = [p[0] for p in self.poly], [p[1] for p in self.poly]
            x0, y0 = self.num((min(xs), min(ys)))
            x1, y1 = self.num((max(xs), max(ys)))
            if swap & 1:
                x0, x1 = x1, x0
            if swap & 2:
                y0, y1 = y1, y0
            return foronoi.BoundingBox(x0, x1, y0, y1)
        return foronoi.Polygon([self.num(p, i) for i, p in enumerate(self.poly)])

    def points(self):
        return [self.num(p, i) for i, p in enumerate(self.sites)]


class StepCap:
    """An observer that counts events; a sweep over n sites handles at most n site and 2n circle events."""

    def __init__(self, n):
        self.n, self.cap = 0, 20 * n + 200

    def update(self, subject, message, **kw):
        if message.name == "STEP_FINISHED":
            self.n += 1
            if self.n > self.cap:
                fail("the sweep does not end: %d events for this input" % self.n)


def run(frame, remove_zero=True, observers=(), cap=True, points=None):
    import foronoi
    v = foronoi.Voronoi(frame.make_poly(), remove_zero_length_edges=remove_zero)
    if cap:
        v.attach_observer(StepCap(len(frame.sites)))
    for o in observers:
        v.attach_observer(o)
    v.create_diagram(points if points is not None else frame.points())
    return v


def ring(first, limit):
    """Half edges met by following next from first until first is met again."""
    out, e = [], first
    while True:
        out.append(e)
        need(len(out) <= limit, "following next from a cell's first edge does not return to it")
        e = e.next
        need(e is not None, "a cell's boundary is not closed: a half-edge has no next half-edge")
        if e is first:
            return out


class Diagram:
    """Sites, cells and edges of a finished diagram, after checking they can be walked at all."""

    def __init__(self, v, frame, sites=None, empty=()):
        """sites: the code's sites in the order of the frame, if they are not simply all of them; empty: indices of sites
        whose region does not reach into the polygon."""
        self.v, self.frame, self.empty = v, frame, set(empty)
        self.sites = list(v.sites if sites is None else sites)
        need(len(self.sites) == len(frame.sites), "the number of sites changed")
        self.n = len(self.sites)
        limit = 4 * (len(v.edges) + 10)
        self.rings = []
        for i, s in enumerate(self.sites):
            if i in empty:
                need(s.first_edge is None, "site %d has a border, though its region does not reach into the polygon" % i)
                self.rings.append([])
                continue
            need(s.first_edge is not None, "site %d has no border" % i)
            self.rings.append(ring(s.first_edge, limit))
        self.index = {id(s): i for i, s in enumerate(self.sites)}

    def loop(self, i):
        """Corners of cell i in lattice coordinates, in the order of the half-edges."""
        return [self.frame.back(e.origin) for e in self.rings[i]]


def reference(frame, min_edge=1e-5):
    """Exact cells; rejects inputs whose diagram has features too small for double precision."""
    cells = X.voronoi(frame.sites, frame.ccw)
    lim = F(frame.size) * F(str(min_edge))
    lim2 = lim * lim
    for c in cells:
        for (p, _), (q, _) in zip(c, c[1:] + c[:1]):
            if X.d2(p, q) < lim2:
                raise Reject("tiny edge")
    return cells


def blank(cells):
    """The sites whose region does not reach into the polygon."""
    return {i for i, c in enumerate(cells) if not c}


def classify(frame, cells):
    """Labels for the distribution report."""
    lab = []
    n = len(frame.sites)
    lab.append("n=%s" % (n if n < 4 else "4-7" if n < 8 else "8-15" if n < 16 else "16+"))
    deg = {}
    onb = False
    for c in cells:
        for (p, t), (_, tp) in zip(c, c[-1:] + c[:-1]):
            if t[0] == "s" or tp[0] == "s":
                deg.setdefault(p, 0)
                deg[p] += 1
                if (t[0] == "s") and (tp[0] == "s"):
                    pass
    Q = frame.ccw
    corners = set(Q)
    if any(k >= 4 for k in deg.values()):
        lab.append("cocircular>=4")
    if any(k >= 3 and X.side(Q, p) == 0 for p, k in deg.items()):
        lab.append("vertex-on-boundary")
        onb = True
    if any(p in corners for p in deg):
        lab.append("edge-into-corner")
    if any(X.side(Q, s) == 0 for s in frame.sites):
        lab.append("site-on-boundary")
    ys = [s[1] for s in frame.sites]
    if len(set(ys)) < n:
        lab.append("equal-y")
    if n > 1 and ys.count(max(ys)) > 1:
        lab.append("equal-y-top")
    if len(set(s[0] for s in frame.sites)) < n:
        lab.append("equal-x")
    if n > 2 and all(X.cross(frame.sites[0], frame.sites[1], s) == 0 for s in frame.sites):
        lab.append("collinear")
    interior = sum(1 for p, k in deg.items() if k >= 3)
    lab.append("interior-vertices=%s" % (interior if interior < 3 else "3+"))
    if frame.dx or frame.dy:
        lab.append("offset")
    if frame.e:
        lab.append("scaled")
    lab.append("num-" + frame.kind)
    lab.append("poly-%d" % len(frame.poly))
    return lab
