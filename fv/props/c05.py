"""Cell areas are exact, add up to the polygon's area, and round as asked."""
from hypothesis import strategies as st

from .. import exact as X, gens
from ..diag import Frame, Diagram, run, reference, classify, need
from ..runner import Leg

ASSUMPTIONS = ["areas are compared up to 1e-8 of the squared size, plus the rounding of coordinates in double precision far from "
               "the origin"]


def check(case, noisy=False):
    fr = Frame(case)
    cells = X.voronoi(fr.sites, fr.ccw) if noisy else reference(fr)
    D = Diagram(run(fr), fr)
    u2 = fr.unit ** 2
    tol = fr.size ** 2 * (1e-7 if noisy else 1e-8) + fr.far * fr.size
    total = 0.0
    for i, s in enumerate(D.sites):
        a = s.area()
        need(isinstance(a, float), "area() is a %s" % type(a).__name__)
        want = float(X.area2([p for p, _ in cells[i]])) / 2
        need(abs(a / u2 - want) <= tol, lambda: "area of site %d is %.9g, its region has area %.9g (lattice units)" % (
            i, a / u2, want))
        need(a > 0 or noisy, "the area of site %d is not positive" % i)
        total += a
        for d in case["digits"]:
            r = float(s.area(d) if case["kw"] else s.area(digits=d))
            need(abs(r - a) <= 0.5 * 10.0 ** -d * (1 + 1e-6) + 1e-12 * abs(a),
                 lambda: "area(%d) is %r for an area of %r" % (d, r, a))
            k = r * 10.0 ** d
            need(abs(k - round(k)) <= 1e-6 * max(1.0, abs(k) * 1e-6) or abs(k) > 1e12,
                 lambda: "area(%d) = %r is not rounded to %d digits" % (d, r, d))
        b = s.borders()
        need(len(b) == len(D.rings[i]) and all(x is y for x, y in zip(b, D.rings[i])),
             "borders() of site %d are not its half-edges in order from the first edge" % i)
        vs = s.vertices()
        need(len(vs) == len(b) and all(x is e.origin for x, e in zip(vs, b)),
             "vertices() of site %d are not the starts of its borders in order" % i)
        need(len({id(x) for x in vs}) == len(vs), "vertices() of site %d contains a vertex twice" % i)
    whole = float(X.area2(fr.ccw)) / 2
    need(abs(total / u2 - whole) <= tol * (1 + len(D.sites)),
         lambda: "areas add up to %.9g, the polygon has %.9g (lattice units)" % (total / u2, whole))
    return {"nontrivial": len(fr.sites) >= 2, "labels": ["noisy"] if noisy else classify(fr, cells)}


def check_noisy(case):
    return check(case, noisy=True)


@st.composite
def cases(draw, *a, base=gens.diagrams, **k):
    case = draw(base(*a, **k))
    case["digits"] = draw(st.lists(st.integers(-2, 8), min_size=1, max_size=3, unique=True))
    case["kw"] = draw(st.booleans())
    return case


@st.composite
def far_cases(draw):
    """A small polygon very far from the origin, as with geographic coordinates in metres."""
    case = draw(cases(1, 7, Rs=(10, 20, 100), framed=False))
    case["dx"], case["dy"] = (draw(st.sampled_from([0, 1, -1])) * draw(st.sampled_from([10 ** 4, 5 * 10 ** 6, 10 ** 8]))
                              for _ in range(2))
    case["num"] = draw(st.sampled_from(["int", "float", "dec", "np", "mixed"]))
    return case


RULE = "at least two sites"
LEGS = [
    Leg("small", cases(1, 8), check, 2400, 50000, RULE),
    Leg("degenerate", cases(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1600, 40000, RULE),
    Leg("medium", cases(12, 40, Rs=(12, 40, 100, 1000)), check, 150, 3000, RULE),
    Leg("noisy", cases(2, 10, base=gens.noisy), check_noisy, 800, 20000, "at least two sites, nearly in special position"),
    Leg("far", far_cases(), check, 600, 10000, RULE),
    Leg("large", cases(90, 220, Rs=(20, 40, 100, 300, 1000)), check, 48, 1000, RULE),
]
