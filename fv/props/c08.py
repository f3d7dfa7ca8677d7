"""Moving, scaling, mirroring or turning the input does the same to the diagram."""
from hypothesis import strategies as st

from . import c23
from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, blank, run, reference, classify, need
from ..runner import Leg

ASSUMPTIONS = ["cells are compared up to 1e-8 of the size (more when far from the origin, where doubles are coarser)"]
MAPS = {
    "id": lambda p: (p[0], p[1]), "mirror-x": lambda p: (-p[0], p[1]), "mirror-y": lambda p: (p[0], -p[1]),
    "half-turn": lambda p: (-p[0], -p[1]), "transpose": lambda p: (p[1], p[0]), "quarter": lambda p: (-p[1], p[0]),
    "3-quarter": lambda p: (p[1], -p[0]), "anti": lambda p: (-p[1], -p[0]),
}
MIRRORED = ("mirror-x", "mirror-y", "transpose", "anti")


def check(case):
    fr = Frame(case)
    cells = reference(fr) if len(fr.sites) < 30 else None
    none = blank(cells or ())
    base = Diagram(run(fr), fr, empty=none)
    k, (tx, ty), m = case["k"], case["t"], MAPS[case["map"]]

    def to(p):
        q = m(p)
        return q[0] * k, q[1] * k
    alt = dict(case, poly=[list(to(p)) for p in fr.poly], sites=[list(to(p)) for p in fr.sites], dx=tx, dy=ty,
               e=case["e2"])
    if alt["num"] == "int" and alt["e"] < 0:
        alt["num"] = "float"
    fr2 = Frame(alt)
    D = Diagram(run(fr2), fr2, empty=none)
    tol = max(fr.tol * k, fr2.tol)
    oracles.same_diagram(base, D, to2=to, mirrored=case["map"] in MIRRORED, tol=tol,
                         what="%s by factor %d and shift (%d, %d) gives another diagram" % (case["map"], k, tx, ty))
    total = 0
    u1, u2 = fr.unit ** 2, fr2.unit ** 2
    atol = tol * fr2.size * 10
    for a, b in zip(base.sites, D.sites):
        total += b.area() / u2
        need(abs(a.area() / u1 * k * k - b.area() / u2) <= atol,
             lambda: "areas are %r and %r after scaling by %d" % (a.area() / u1, b.area() / u2, k))
    whole = float(X.area2(fr2.ccw)) / 2
    need(abs(total - whole) <= atol * (len(D.sites) + 1), "areas add up to %r, the polygon has %r" % (total, whole))
    lab = classify(fr, cells) if cells else ["large n"]
    lab.append(case["map"])
    return {"nontrivial": len(fr.sites) >= 2, "labels": lab}


def check_noisy(case):
    """Areas only: edges as short as rounding errors may be there in one diagram and not in the other."""
    fr = Frame(case)
    base = Diagram(run(fr), fr)
    k, (tx, ty), m = case["k"], case["t"], MAPS[case["map"]]
    to = [[[m(p)[0] * k + tx, m(p)[1] * k + ty] for p in ps] for ps in (fr.poly, fr.sites)]
    fr2 = Frame(dict(case, poly=to[0], sites=to[1], dx=0, dy=0))
    D = Diagram(run(fr2), fr2)
    for i in range(D.n):
        a, b = oracles.farea(base.loop(i)) * k * k, oracles.farea(D.loop(i))
        need(abs(a - b) <= 1e-6 * fr2.size ** 2, lambda: "cell %d has area %.9g, its image under %s by factor %d and shift (%d, %d) "
             "has %.9g" % (i, a, case["map"], k, tx, ty, b))
    return {"nontrivial": len(fr.sites) >= 3, "labels": [case["map"]]}


@st.composite
def noisy_cases(draw):
    case = draw(gens.noisy(2, 9, num=False))
    case["num"] = "dec"
    R = max(max(abs(c) for c in p) for p in case["poly"]) or 1
    case["map"] = draw(st.sampled_from(sorted(MAPS)))
    case["k"] = draw(st.sampled_from([1, 1, 2, 3, 7, 10]))
    case["t"] = list(draw(st.sampled_from([(0, 0), (R, R), (-R // 2, -R // 2), (-2 * R, 3 * R), (3 * R, 0)])))
    return case


@st.composite
def cases(draw, *a, base=gens.diagrams, **kw):
    case = draw(base(*a, **kw))
    R = max(max(abs(c) for c in p) for p in case["poly"]) or 1
    case["map"] = draw(st.sampled_from(sorted(MAPS)))
    case["k"] = draw(st.sampled_from([1, 1, 2, 3, 7, 10]))
    case["t"] = list(draw(st.sampled_from([(0, 0), (R, R), (-R // 2, -R // 2), (1000 * R, -1000 * R), (3 * R, 0)])
                          | st.tuples(st.integers(-4 * R, 4 * R), st.integers(-4 * R, 4 * R))))
    case["e2"] = draw(st.sampled_from([0, 0, -1, -3, 2, 4, -10, 8]))
    if case["num"] == "dec" and draw(st.booleans()):
        case["t"] = list(draw(st.sampled_from([(10 ** 9 * R, 10 ** 12 * R), (-10 ** 15 * R, 10 ** 15 * R), (0, 10 ** 14 * R)])))
    return case


RULE = "at least two sites"
LEGS = [
    Leg("small", cases(1, 9), check, 2200, 40000, RULE),
    Leg("degenerate", cases(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1600, 40000, RULE),
    Leg("noisy", noisy_cases(), check_noisy, 700, 15000, "at least three sites, nearly in special position"),
    Leg("outside", cases(8, base=c23.outside), check, 1000, 20000, RULE),
    Leg("large", cases(60, 160, Rs=(100, 1000)), check, 48, 1000, RULE),
]
