"""Sites outside the polygon, repeated sites and repeated corners."""
from hypothesis import strategies as st

from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, run, reference, need
from ..runner import Leg

ASSUMPTIONS = ["inputs whose diagram has borders shorter than 1e-5 of the polygon's size are rejected",
               "sites lie at most 1e6 times the polygon's size away from it"]


def distinct(sites):
    return [list(p) for p in dict.fromkeys(tuple(p) for p in sites)]


def check(case):
    full = Frame(case)
    # the reference: the distinct locations
    fr = Frame(dict(case, sites=distinct(case["sites"])))
    cells = reference(fr)
    inside = [X.side(fr.ccw, p) for p in fr.sites]
    names = []
    v = run(full, remove_zero=case["zero"])
    need(len(v.sites) == len(full.sites), "the number of sites changed")
    held = {}
    for s, p, q in zip(v.sites, full.sites, full.points()):
        need((float(s.xd), float(s.yd)) == (float(q[0]), float(q[1])), "the diagram's sites are not those given, in order")
        held.setdefault(p, []).append(s)
        names.append(s.name)
    order = sorted(range(len(names)), key=lambda i: (-full.sites[i][1], full.sites[i][0]))
    need(sorted(map(str, names)) == sorted(str(i) for i in range(len(names))), "the sites' names are %s" % (names,))
    for a, b in zip(order, order[1:]):
        if full.sites[a] != full.sites[b]:
            need(names[a] < names[b], "sites are not named from top to bottom: %s" % (names,))
    own, empty = [], set()
    for i, p in enumerate(fr.sites):
        with_cell = [s for s in held[p] if s.first_edge is not None]
        if cells[i]:
            need(len(with_cell) == 1, "%d of the %d sites at location %s have a cell, its region reaches into the polygon" % (
                len(with_cell), len(held[p]), p))
        else:
            empty.add(i)
        own.append((with_cell or held[p])[0])
        for s in held[p]:
            if s is own[-1] and cells[i]:
                continue
            need(s.first_edge is None and s.borders() == [] and s.vertices() == [],
                 "a site without a region of its own at %s has a border" % (p,))
            need(s.area() == 0 and s.area(3) == 0, "a site without a region of its own at %s has area %r" % (p, s.area()))
    D = Diagram(v, fr, own, empty)
    if case["zero"]:
        oracles.check_cells(D, cells)
        oracles.check_edges(D, cells)
        oracles.check_vertices(D, cells)
    else:
        oracles.check_cells(D, cells, zero_edges=True)
    oracles.check_structure(D, oriented=case["zero"])
    u2 = fr.unit ** 2
    far = max(abs(x + fr.dx) for x, _ in fr.poly) + max(abs(y + fr.dy) for _, y in fr.poly)
    tol = fr.size ** 2 * 1e-8 + far * fr.size * 1e-13
    for i, s in enumerate(own):
        want = float(X.area2([p for p, _ in cells[i]])) / 2 if cells[i] else 0.0
        need(abs(s.area() / u2 - want) <= tol, lambda: "area of site %d is %.9g, its region has area %.9g (lattice units)" % (
            i, s.area() / u2, want))
    poly = v.bounding_poly
    corners = [(round(x, 6), round(y, 6)) for x, y in (fr.back(p) for p in poly.points)]
    need(len(corners) == len(set(fr.poly)), "the polygon has %d corners, %d different ones were given" % (
        len(corners), len(set(fr.poly))))
    lab = []
    if min(inside) < 0:
        lab.append("none-inside" if max(inside) < 0 else "some-outside")
    if empty:
        lab.append("empty-cell")
    if len(cells) - len(empty) == 1 and len(cells) > 1:
        lab.append("one-cell")
    if len(fr.sites) < len(full.sites):
        lab.append("repeated-site")
    if len(set(fr.poly)) < len(fr.poly):
        lab.append("repeated-corner")
    return {"nontrivial": bool(lab), "labels": lab or ["ordinary"]}


@st.composite
def outside(draw, hi=9, remote=True, lo=1, Rs=(4, 6, 10, 12, 20, 100)):
    """Sites of all patterns in a square around the polygon, and mirror images of sites in its sides and corners."""
    R = draw(st.sampled_from(Rs))
    poly, is_box = draw(gens.polygons(R))
    w = draw(st.sampled_from([R // 4 + 1, R // 2, R, 3 * R, 10 * R]))
    sites = draw(gens.site_sets([(-w, -w), (R + w, -w), (R + w, R + w), (-w, R + w)], lo, hi))
    Q = gens.ccw(poly)
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        x, y = draw(st.sampled_from(sites))
        k = draw(st.integers(0, len(Q) - 1))
        a, b = Q[k], Q[(k + 1) % len(Q)]
        if draw(st.booleans()):
            p = (2 * a[0] - x, 2 * a[1] - y)
        else:
            # the mirror image, if it is on the lattice
            dx, dy = b[0] - a[0], b[1] - a[1]
            c, n = dx * (y - a[1]) - dy * (x - a[0]), dx * dx + dy * dy
            if 2 * c * dy % n or 2 * c * dx % n:
                continue
            p = (x + 2 * c * dy // n, y - 2 * c * dx // n)
        if p not in sites:
            sites.insert(draw(st.integers(0, len(sites))), p)
    if draw(st.integers(0, 5)) == 0:
        f = draw(st.sampled_from([10 ** 3, 10 ** 5]))
        j = draw(st.integers(0, len(sites) - 1))
        p = (sites[j][0] * f, sites[j][1] * f)
        if p not in sites and abs(p[0]) < 10 ** 6 * R and abs(p[1]) < 10 ** 6 * R:
            sites[j] = p
    case = draw(gens.frames(R, remote))
    case.update(poly=[list(p) for p in poly], sites=[list(p) for p in sites], box=bool(is_box and draw(st.booleans())),
                zero=draw(st.integers(0, 3)) > 0)
    return case


@st.composite
def repeated(draw, base):
    case = draw(base)
    case.setdefault("zero", draw(st.integers(0, 3)) > 0)
    sites = case["sites"]
    for _ in range(draw(st.integers(0, 4))):
        p = draw(st.sampled_from(sites))
        sites.insert(draw(st.integers(0, len(sites))), list(p))
    how = draw(st.integers(0, 3))
    if how == 1:
        case["poly"] = case["poly"] + case["poly"][:1]
        case["box"] = False
    elif how == 2:
        case["poly"] = draw(st.permutations(case["poly"] + draw(st.lists(st.sampled_from(case["poly"]), max_size=4))))
        case["box"] = False
    return case


@st.composite
def rough(draw):
    """Sites outside in nearly special position (noise of 1e-12 and more), checked without exact reference cells."""
    R = draw(st.sampled_from([4, 10, 20]))
    case = draw(gens.noisy(2, 8, Rs=(R,), poly_kinds=["box", "hull", "tri", "diamond", "oct"], hows=(0, 1, 2, 3, 4)))
    f = 10 ** 12
    poly, _ = draw(gens.polygons(R))
    ox, oy = draw(st.integers(-R, R)), draw(st.integers(-R, R))
    case["poly"] = [[(x + ox) * f, (y + oy) * f] for x, y in poly]
    case["box"] = False
    return case


@st.composite
def opening(draw):
    """Borders that meet, up to rounding, in the point of the outline where its tour begins."""
    f = 10 ** 26
    r = draw(st.sampled_from([5, 5, 13, 25]))
    ring = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1) if x * x + y * y == r * r]
    if draw(st.booleans()):
        ring = [p for p in ring if p[0] >= 0] + draw(st.lists(st.sampled_from(ring), max_size=3))
    den = draw(st.sampled_from([3, 7, 9, 11, 13, 17]))
    picked = draw(st.lists(st.sampled_from(ring), min_size=4, max_size=9, unique=True))
    sites = [[x * f // den, y * f // den] for x, y in picked]
    w, h = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    cut = draw(st.integers(0, min(w, h)))
    poly = [(0, h), (0, -h), (w, -h), (w, h)] if draw(st.booleans()) else [(0, h), (0, -h), (w, -h + cut / 2), (w, h - cut / 2)]
    for _ in range(draw(st.integers(0, 3))):
        p = [draw(st.integers(-2 * w, 2 * w)) * f, draw(st.integers(-2 * h, 2 * h)) * f]
        if p not in sites:
            sites.append(p)
    m = draw(st.sampled_from([0, 1, 10 ** 3, 10 ** 8]))
    sites = [[x + m * draw(st.integers(-1, 1)), y + m * draw(st.integers(-1, 1))] if m else [x, y] for x, y in sites]
    return {"poly": [[x * f, int(2 * y) * f // 2] for x, y in poly], "sites": draw(st.permutations(sites)), "e": -26, "dx": 0, "dy": 0,
            "num": "dec", "box": False}


def check_rough(case):
    fr = Frame(case)
    cells = X.voronoi(fr.sites, fr.ccw)
    tol = fr.size * 1e-7
    v = run(fr)
    total = 0.0
    for i, s in enumerate(v.sites):
        want = float(X.area2([p for p, _ in cells[i]])) / 2 / fr.size ** 2 if cells[i] else 0.0
        got = s.area() / fr.unit ** 2 / fr.size ** 2
        need(abs(want - got) <= 1e-6, "area of site %d is %.9g of the squared size, its region has %.9g" % (i, got, want))
        total += got
    empty = {i for i, s in enumerate(v.sites) if s.first_edge is None}
    D = Diagram(v, fr, None, empty)
    oracles.check_structure(D, oriented=False)
    Q = [(float(x), float(y)) for x, y in fr.ccw]
    for i in range(D.n):
        for p in D.loop(i):
            need(oracles.inside_convex(Q, p, tol), "a corner of the cell of site %d is outside the polygon" % i)
    return {"nontrivial": any(X.side(fr.ccw, p) < 0 for p in fr.sites), "labels": ["noisy"] + (["empty-cell"] if empty else [])}


RULE = "a site outside the polygon, or a repeated site or corner"
LEGS = [
    Leg("outside", outside(), check, 3000, 80000, RULE),
    Leg("repeated", repeated(gens.diagrams(1, 8)), check, 1500, 40000, RULE),
    Leg("both", repeated(outside(7)), check, 1500, 40000, RULE),
    Leg("medium", repeated(outside(40, lo=15, Rs=(20, 100, 1000))), check, 100, 2500, RULE),
    Leg("large", repeated(outside(160, lo=70, Rs=(100, 1000))), check, 24, 500, RULE),
    Leg("opening", opening(), check_rough, 600, 12000, "a site outside the polygon"),
    Leg("noisy", rough(), check_rough, 1000, 25000, "a site outside the polygon"),
]
