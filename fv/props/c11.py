"""The sweep handles every site once, top to bottom, and every true circle event."""
import math
from decimal import Decimal

from . import c23
from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, blank, run, reference, classify, need
from ..runner import Leg
from ..sweep import Watcher

ASSUMPTIONS = ["order of equal heights is exact for sites; circle events may be out of order by rounding (1e-9 of size)"]


def check(case, noisy=False):
    fr = Frame(case)
    cells = None if noisy else reference(fr)
    n = len(fr.sites)
    steps = []

    def step(v):
        e = v.event
        need(v.sweep_line == e.yd, lambda: "the sweep line is at %s after an event at %s" % (v.sweep_line, e.yd))
        if hasattr(e, "point"):
            steps.append(("site", e.point, float(e.yd), e.point.name))
        else:
            steps.append(("circle", (fr.back(e.center), float(e.radius) / fr.unit, list(e.point_triple), e.is_valid,
                                     float(e.center.yd - e.radius)), float(e.yd), None))
    v = run(fr, observers=[Watcher(step, n)])
    D = Diagram(v, fr, empty={i for i, s in enumerate(v.sites) if s.first_edge is None} if noisy else blank(cells))
    tol = max(fr.tol, 1e-9 * fr.size) * (10 if noisy else 1)
    # order
    last = math.inf
    for k, (kind, what, y, _) in enumerate(steps):
        need(y <= last + tol * fr.unit, lambda: "event %d at y=%r comes after an event at y=%r" % (k, y, last))
        last = y
    # sites
    order = [w for kind, w, _, _ in steps if kind == "site"]
    need(len(order) == n and {id(p) for p in order} == {id(s) for s in v.sites},
         lambda: "%d sites, %d site events, %d different ones" % (n, len(order), len({id(p) for p in order})))
    want = sorted(range(n), key=lambda i: (-fr.sites[i][1], fr.sites[i][0]))
    got = [D.index[id(p)] for p in order]
    need(got == want, lambda: "sites are handled in the order %s, top to bottom is %s" % (got, want))
    for k, i in enumerate(want):
        need(D.sites[i].name == k and str(D.sites[i]) == "P%d" % k,
             lambda: "the site that is %d-th from the top is called %r" % (k, D.sites[i].name))
    # circles
    centers = []
    for kind, w, y, _ in steps:
        if kind != "circle":
            continue
        c, r, triple, valid, bottom = w
        need(valid, "a circle event that was marked as a false alarm was handled")
        t = tol * max(1.0, r / fr.size)
        need(len(triple) == 3 and len({id(p) for p in triple}) == 3, "a circle event does not have three sites")
        for p in triple:
            need(id(p) in D.index, "a circle event refers to something that is not a site")
            s = fr.sites[D.index[id(p)]]
            need(abs(math.dist(c, s) - r) <= t * 10, lambda: "the circle around %s with radius %.9g misses its site %s" % (
                oracles.show([c]), r, s))
        for s in fr.sites:
            need(math.dist(c, s) >= r - t * 10, lambda: "site %s lies inside the handled circle around %s" % (
                s, oracles.show([c])))
        need(abs(bottom - y) <= t * fr.unit * 10, "a circle event is not handled at the bottom of its circle")
        centers.append(c)
    nc = len(centers)
    need(nc <= max(0, 2 * n - 2), lambda: "%d circle events for %d sites" % (nc, n))
    lab = ["noisy"] if noisy else classify(fr, cells)
    lab = lab + ["circles=%s" % (nc if nc < 4 else "4+")]
    if n <= 10:
        exact = X.delaunay_circles(fr.sites)
        for c, (r2, on) in exact.items():
            f = oracles.fl(c)
            r = math.sqrt(float(r2))
            t = tol * 10 * max(1.0, r / fr.size)
            hits = sum(1 for g in centers if oracles.near(f, g, t))
            need(hits >= 1, lambda: "no circle event at %s, where the regions of sites %s meet" % (
                oracles.show([f]), on))
        for g in centers:
            need(any(oracles.near(oracles.fl(c), g, tol * 10 * max(1.0, math.sqrt(float(r2)) / fr.size))
                     for c, (r2, _) in exact.items()), "a circle event was handled where no three regions meet")
    return {"nontrivial": nc >= 1, "labels": lab}


def check_noisy(case):
    return check(case, noisy=True)


RULE = "at least one circle event was handled"
LEGS = [
    Leg("small", gens.diagrams(2, 9), check, 2400, 40000, RULE),
    Leg("degenerate", gens.diagrams(3, 12, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2000, 40000, RULE),
    Leg("noisy", gens.noisy(3, 9, hows=(0, 1, 2, 3, 4, 5, 7)), check_noisy, 900, 20000, RULE + ", sites nearly in special position"),
    Leg("outside", c23.outside(9), check, 1000, 20000, RULE),
    Leg("medium", gens.diagrams(15, 60, Rs=(20, 100, 1000)), check, 100, 2000, RULE),
    Leg("large", gens.diagrams(90, 180, Rs=(20, 100, 1000)), check, 24, 600, RULE),
]
