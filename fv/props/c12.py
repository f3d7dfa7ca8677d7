"""After every step the beach line is the lower envelope of the handled sites."""
import math
from decimal import Decimal

import numpy as np

from . import c23
from .. import gens
from ..diag import Frame, Diagram, run, reference, classify, need
from ..runner import Leg
from ..sweep import Watcher, nodes_in_order, breakpoint_x

ASSUMPTIONS = ["arcs narrower than 1e-7 of the size count as having no width",
               "an arc is on the envelope if no handled site is nearer than its own up to 1e-8 of the size"]


def par(p, x, l):
    return ((x - p[0]) ** 2 / (p[1] - l) + p[1] + l) / 2


def check_step(v, fr, handled, state):
    size = fr.size * fr.unit
    l = Decimal(str(v.sweep_line)) if not isinstance(v.sweep_line, Decimal) else v.sweep_line
    root = v.status_tree
    ns = [nd for nd, _ in nodes_in_order(root, 40 * len(fr.sites) + 100)]
    leaves = [nd for nd in ns if nd.left is None and nd.right is None]
    inner = [nd for nd in ns if not (nd.left is None and nd.right is None)]
    need(len(ns) % 2 == 1 and all((k % 2 == 0) == (nd.left is None and nd.right is None) for k, nd in enumerate(ns)),
         "arcs and breakpoints do not alternate along the beach line")
    sites = [nd.get_value().origin for nd in leaves]
    for k, nd in enumerate(inner):
        a, b = nd.get_value().breakpoint
        need(a is sites[k] and b is sites[k + 1], lambda: "between the arcs of %s and %s there is the breakpoint %s, %s" % (
            sites[k], sites[k + 1], a, b))
    hid = {id(s) for s in handled}
    need(all(id(s) in hid for s in sites), "the beach line has an arc of a site that was not handled yet")
    need(all(id(a) != id(b) for a, b in zip(sites, sites[1:])), "two neighbouring arcs of one site")
    pos = [(s.xd, s.yd) for s in sites]
    xs = []
    for p, q in zip(pos, pos[1:]):
        x = breakpoint_x(p, q, l)
        need(x is not None, "a breakpoint between two sites at the same height, the left one on the right")
        xs.append(x)
    # the breakpoints are in order (equal within tolerance: an arc without width)
    state["arcs"] = max(state["arcs"], len(leaves))
    # float evaluation in coordinates relative to the polygon
    ox, oy = Decimal(fr.dx).scaleb(fr.e), Decimal(fr.dy).scaleb(fr.e)

    def loc(p):
        return float((p[0] - ox)) / fr.unit, float((p[1] - oy)) / fr.unit
    lf = float(l - oy) / fr.unit
    far = 30.0 * fr.size
    S = max(fr.size, abs(lf))
    tol = max(1e-8 * fr.size, fr.tol)
    fx = [float(x - ox) / fr.unit for x in xs]
    for a, b in zip(fx, fx[1:]):
        need(a <= b + 1e-7 * S + tol, lambda: "breakpoints out of order: %.9g before %.9g" % (a, b))
    fp = [loc(p) for p in pos]
    fh = [loc((s.xd, s.yd)) for s in handled]
    # below tolerance the parabola of a site is a vertical ray
    flat = [p for p in fh if p[1] - lf <= 1e-9 * S]
    for s, p in zip(handled, fh):
        if s.yd == l:
            need(sites.count(s) >= 1, lambda: "the site %s on the sweep line has no arc" % s)
    for k, p in enumerate(fp):
        lo = fx[k - 1] if k > 0 else -far
        hi = fx[k] if k < len(fx) else far
        lo, hi = max(lo, -far), min(hi, far)
        if p[1] - lf <= 1e-9 * S:
            continue
        if hi - lo <= 1e-7 * S:
            continue
        w = hi - lo
        samples = [lo + w * t for t in (0.01, 0.2, 0.5, 0.8, 0.99)]
        for q in fh:
            # minimum over x of parabola(q) - parabola(p), and the site q itself
            if lo < q[0] < hi:
                samples.append(q[0])
            if q is not p and q not in flat:
                u, w2 = p[1] - lf, q[1] - lf
                if u != w2:
                    x = (q[0] * u - p[0] * w2) / (u - w2)
                    if lo < x < hi:
                        samples.append(x)
        for x in samples:
            y = par(p, x, lf)
            own = y - lf
            for q in fh:
                d = math.hypot(x - q[0], y - q[1])
                need(d >= own - tol * max(1.0, own / fr.size, abs(x) / fr.size) * 10,
                     lambda: "at x=%.6g the beach line has the arc of site %s, but site %s is nearer (sweep line at %.9g)"
                     % (x, show(p), show(q), lf))
    # the diagram's list of arcs has the same minimum (this is what is drawn)
    need(isinstance(v.arcs, list), "arcs is no list")
    live = [a for a in v.arcs]
    need(all(id(a.origin) in hid for a in live), "an arc of a site that was not handled yet")
    grid = np.array([float(ox) + (t * fr.size / 7.0) * fr.unit for t in range(-2, 10)])
    ys = [a.get_plot(grid, v.sweep_line) for a in live]
    ys = [y for y in ys if y is not None]
    refs = [p for p in fh if p[1] > lf]
    if refs and not flat and abs(float(l)) < 1e4 * size:
        need(bool(ys), "no arc is drawn although there are sites above the sweep line")
        low = np.min(ys, axis=0)
        for x, y in zip(grid, low):
            xr = float(Decimal(float(x)) - ox) / fr.unit
            want = min(par(p, xr, lf) for p in refs)
            yr = float(Decimal(float(y)) - oy) / fr.unit
            off = (abs(fr.dx) + abs(fr.dy) + S) / fr.size
            steep = 1 + (want - lf) / min(p[1] - lf for p in refs)
            need(abs(yr - want) <= 1e-7 * max(want - lf, fr.size) * (1 + off * 1e-6) * steep,
                 lambda: "at x=%.6g the drawn beach line is at %.9g, the lower envelope at %.9g" % (xr, yr, want))
    state["steps"] += 1


def show(p):
    return "(%.6g, %.6g)" % p


def check(case, noisy=False):
    fr = Frame(case)
    cells = None if noisy else reference(fr)
    state = {"steps": 0, "arcs": 0}
    handled = []

    def step(v):
        if hasattr(v.event, "point"):
            handled.append(v.event.point)
        check_step(v, fr, handled, state)
    run(fr, observers=[Watcher(step, len(fr.sites))])
    need(len(handled) == len(fr.sites), "not every site was handled")
    lab = ["noisy"] if noisy else classify(fr, cells)
    lab = lab + ["max-arcs=%s" % (state["arcs"] if state["arcs"] < 5 else "5+")]
    return {"nontrivial": state["arcs"] >= 3, "labels": lab}


def check_noisy(case):
    return check(case, noisy=True)


RULE = "the beach line had at least three arcs at some step"
LEGS = [
    Leg("small", gens.diagrams(2, 8), check, 1800, 30000, RULE),
    Leg("degenerate", gens.diagrams(3, 12, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1200, 25000, RULE),
    Leg("noisy", gens.noisy(2, 9), check_noisy, 600, 15000, RULE + ", sites nearly in special position"),
    Leg("outside", c23.outside(8), check, 800, 15000, RULE),
    Leg("medium", gens.diagrams(12, 25, Rs=(20, 100, 1000)), check, 60, 1000, RULE),
    Leg("large", gens.diagrams(40, 80, Rs=(20, 100, 1000)), check, 12, 300, RULE),
]
