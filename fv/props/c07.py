"""The result depends only on the set of sites and the polygon, not how they are given."""
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from . import c23
from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, StepCap, blank, run, reference, classify, need, fail
from ..runner import Leg

ASSUMPTIONS = ["cells are compared up to 1e-8 of the size", "containers: lists and tuples of pairs, arrays of rows"]
KINDS = ["float", "dec", "np", "mixed", "int"]


def container(points, how):
    if how == "lists":
        return [list(p) for p in points]
    if how == "tuples":
        return tuple(points)
    if how == "array":
        return np.array([[float(a), float(b)] for a, b in points])
    return list(points)


def check(case):
    fr = Frame(case)
    cells = reference(fr)
    n = len(fr.sites)
    base = Diagram(run(fr), fr, empty=blank(cells))
    # only numbers that denote the same decimal may be exchanged
    perm = case["perm"]
    alt = dict(case, sites=[case["sites"][k] for k in perm], poly=[case["poly"][k] for k in case["pperm"]],
               num=case["num2"])
    if alt["num"] == "int" and case["e"] < 0:
        alt["num"] = "dec"
    fr2 = Frame(alt)
    pts = container(fr2.points(), case["how"])
    before = [tuple(p) for p in pts]
    ids = [id(p) for p in pts] if case["how"] != "array" else None
    where = [0] * n
    for new, old in enumerate(perm):
        where[old] = new
    v = run(fr2, points=pts)
    need(len(pts) == n and all(tuple(p) == q for p, q in zip(pts, before)), "the given list of sites was changed")
    if ids:
        need([id(p) for p in pts] == ids, "the entries of the given list of sites were replaced or reordered")
    D = Diagram(v, fr2, empty=[where[i] for i in base.empty])
    for k, s in enumerate(D.sites):
        x, y = before[k]
        need(s.xd == Decimal(str(x)) and s.yd == Decimal(str(y)),
             lambda: "site %d was given at %s and is listed at (%s, %s)" % (k, before[k], s.xd, s.yd))
    oracles.same_diagram(base, D, order=where, what="the diagram depends on how its input is given")
    if len(base.v.edges) != len(D.v.edges) or len(base.v.vertices) != len(D.v.vertices):
        fail("the number of edges or vertices depends on how the input is given")
    lab = classify(fr, cells)
    lab.append("container-" + case["how"])
    return {"nontrivial": n >= 2 and (perm != list(range(n)) or case["pperm"] != list(range(len(perm)))),
            "labels": lab}


@st.composite
def long_cases(draw):
    """Decimal sites with up to 24 digits."""
    case = draw(gens.noisy(1, 8, Rs=(4, 10, 20, 100), num=False, hows=(0, 1, 2, 3, 4)))
    k = draw(st.integers(4, 9))
    f = 10 ** k
    low = st.integers(0, f - 1)
    Q = gens.ccw([[x * f, y * f] for x, y in case["poly"]])
    sites = []
    for x, y in case["sites"]:
        p = (x * f + draw(low), y * f + draw(low))
        sites.append(list(p) if X.side(Q, p) >= 0 else [x * f, y * f])
    case.update(poly=[[x * f, y * f] for x, y in case["poly"]], sites=sites, e=case["e"] - k, num="dec")
    case["perm"] = draw(st.permutations(list(range(len(sites)))))
    return case


def check_long(case):
    """No digit of a site gets lost, wherever it is in the list."""
    fr = Frame(case)
    pts = [fr.points()[k] for k in case["perm"]]
    poly = fr.make_poly()
    import foronoi
    v = foronoi.Voronoi(poly)
    v.attach_observer(StepCap(len(pts)))
    v.create_diagram(pts)
    got = [(s.xd, s.yd) for s in v.sites]
    need(got == pts, lambda: "the sites %s are listed as %s" % (pts, got))
    want = {tuple(fr.num(p)) for p in fr.ccw}
    need({(c.xd, c.yd) for c in poly.points} == want, "the polygon's corners have other digits than given")
    D = Diagram(v, Frame(dict(case, sites=[case["sites"][k] for k in case["perm"]])))
    oracles.check_cells_tolerant(D)
    digits = max(len(c.as_tuple().digits) for p in pts for c in p)
    return {"nontrivial": digits > 17, "labels": ["digits=%d" % digits, "n=%d" % len(pts)]}


@st.composite
def cases(draw, *a, base=gens.diagrams, **k):
    case = draw(base(*a, remote=False, **k))
    n, m = len(case["sites"]), len(case["poly"])
    case["perm"] = draw(st.permutations(list(range(n))))
    case["pperm"] = draw(st.permutations(list(range(m))))
    case["num2"] = draw(st.sampled_from(KINDS))
    case["how"] = draw(st.sampled_from(["list", "lists", "tuples", "array"]))
    return case


RULE = "at least two sites and a non-trivial permutation of sites or polygon corners"
LEGS = [
    Leg("small", cases(1, 9), check, 2500, 40000, RULE),
    Leg("degenerate", cases(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2000, 40000, RULE),
    Leg("medium", cases(15, 50, Rs=(20, 100, 1000)), check, 100, 2000, RULE),
    Leg("large", cases(70, 160, Rs=(100, 1000)), check, 16, 400, RULE),
    Leg("outside", cases(9, base=c23.outside), check, 1000, 20000, RULE),
    Leg("long", long_cases(), check_long, 600, 10000, "a site has more than 17 digits"),
]
