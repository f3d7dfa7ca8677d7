"""The status tree stays a well-formed balanced tree at every size."""
import math
import sys

from hypothesis import strategies as st

from . import c23
from .. import gens
from ..diag import Frame, Diagram, run, reference, classify, need
from ..runner import Leg
from ..sweep import Watcher, nodes_in_order

ASSUMPTIONS = ["logarithmic depth: at most 1.5 * log2(2 * sites handled) + 2 levels (an AVL tree with that many leaves has "
               "at most 1.44 * log2)",
               "large arrangements run with 400 Python stack frames to spare"]


def shape(v, fr, state, full=True):
    root = v.status_tree
    need(root is not None, "no status tree after an event")
    need(root.parent is None, "the root of the status tree has a parent")
    limit = 40 * len(fr.sites) + 100
    ns = nodes_in_order(root, limit)
    need(len({id(nd) for nd, _ in ns}) == len(ns), "a node occurs twice in the status tree")
    leaves = 0
    depth = 0
    height = {}
    for nd, d in sorted(ns, key=lambda t: -t[1]):
        depth = max(depth, d + 1)
        kids = [c for c in (nd.left, nd.right) if c is not None]
        if not kids:
            leaves += 1
        need(len(kids) != 1, "an internal node has one child only")
        for c in kids:
            need(c.parent is nd, "a child does not point to its parent")
        need(nd.is_leaf() == (not kids), "is_leaf() is wrong")
        h = 1 + max([height[id(c)] for c in kids], default=0)
        height[id(nd)] = h
        need(nd.height == h, lambda: "a node of height %d says its height is %r" % (h, nd.height))
        b = (height[id(nd.left)] - height[id(nd.right)]) if kids else 0
        need(nd.balance == b, lambda: "a node's balance is %r, it says %r" % (b, nd.balance))
        if kids:
            need(nd.left.is_left_child() and not nd.left.is_right_child() and nd.right.is_right_child()
                 and not nd.right.is_left_child(), "is_left_child() or is_right_child() is wrong")
        state["skew"] = max(state["skew"], abs(b))
    k = state["sites"] = max(1, state.get("sites", 0))
    bound = 1.5 * math.log2(2 * k) + 2
    need(depth <= bound, lambda: "the status tree has depth %d with %d leaves after %d sites" % (depth, leaves, k))
    state["leaves"] = max(state["leaves"], leaves)
    seq = [nd for nd, _ in ns if nd.left is None and nd.right is None]
    if full:
        # neighbours of leaves and extremes, as the construction uses them
        for k, nd in enumerate(seq):
            want = seq[k - 1] if k else None
            need(nd.predecessor is want, "the predecessor of a leaf is not the leaf to its left")
            want = seq[k + 1] if k + 1 < len(seq) else None
            need(nd.successor is want, "the successor of a leaf is not the leaf to its right")
        need(root.minimum() is seq[0] and root.maximum() is seq[-1], "minimum() or maximum() is not the outermost leaf")


def check(case, noisy=False):
    fr = Frame(case)
    state = {"leaves": 0, "skew": 0}

    def step(v):
        state["sites"] = state.get("sites", 0) + hasattr(v.event, "point")
        shape(v, fr, state)
    w = Watcher(step, len(fr.sites))
    run(fr, observers=[w])
    lab = classify(fr, reference(fr)) if len(set(fr.sites)) == len(fr.sites) < 30 and not noisy else []
    return {"nontrivial": state["leaves"] >= 4,
            "labels": lab + ["skew=%d" % state["skew"], "leaves=%s" % (state["leaves"] // 8 * 8)]}


def check_noisy(case):
    return check(case, noisy=True)


@st.composite
def large_cases(draw):
    """Hundreds to thousands of sites in arrangements that unbalance naive trees; small parameters, so they shrink."""
    kind = draw(st.sampled_from(["row", "row", "column", "diagonal", "rows", "arch", "grid", "zigzag", "wedge"]))
    n = draw(st.integers(2, 1600 if kind in ("row", "rows") else 400))
    return {"kind": kind, "n": n, "step": draw(st.integers(1, 3)), "order": draw(st.sampled_from(["up", "down", "mix"])),
            "flip": draw(st.booleans())}


def large_sites(case):
    n, s = case["n"], case["step"]
    k = case["kind"]
    if k == "row":
        pts = [(i * s, 0) for i in range(n)]
    elif k == "column":
        pts = [(0, i * s) for i in range(n)]
    elif k == "diagonal":
        pts = [(i * s, i) for i in range(n)]
    elif k == "rows":
        pts = [(i * s, (i % 2) * 3) for i in range(n)]
    elif k == "arch":
        pts = [(i * s, i * (n - i)) for i in range(n)]
    elif k == "grid":
        m = max(1, int(math.isqrt(n)))
        pts = [(i * s, j) for i in range(m) for j in range(m)]
    elif k == "zigzag":
        pts = [(i * s, (i * 7) % 11) for i in range(n)]
    else:
        pts = [(i * s, abs(2 * i - n)) for i in range(n)]
    if case["flip"]:
        top = max(p[1] for p in pts)
        pts = [(p[0], top - p[1]) for p in pts]
    if case["order"] == "down":
        pts = pts[::-1]
    elif case["order"] == "mix":
        pts = sorted(pts, key=lambda p: (p[0] * 7919 + p[1] * 104729) % 1009)
    return pts


def depth_here():
    f, d = sys._getframe(), 0
    while f is not None:
        f, d = f.f_back, d + 1
    return d


def check_large(case):
    pts = large_sites(case)
    x1, y1 = max(p[0] for p in pts), max(p[1] for p in pts)
    fr = Frame({"e": 0, "dx": 0, "dy": 0, "num": "int", "box": True, "sites": pts,
                "poly": [(-2, -2), (x1 + 2, -2), (x1 + 2, y1 + 2), (-2, y1 + 2)]})
    state = {"leaves": 0, "skew": 0, "k": 0}
    every = max(1, len(pts) // 12)

    def step(v):
        state["k"] += 1
        state["sites"] = state.get("sites", 0) + hasattr(v.event, "point")
        if state["k"] % every == 0:
            shape(v, fr, state, full=False)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth_here() + 400)
    try:
        v = run(fr, observers=[Watcher(step, len(pts))])
    except RecursionError:
        need(False, "the construction exhausts the recursion limit with %d sites" % len(pts))
    finally:
        sys.setrecursionlimit(old)
    D = Diagram(v, fr)
    area = sum(s.area() for s in D.sites)
    whole = (x1 + 4) * (y1 + 4)
    need(abs(area - whole) <= 1e-6 * whole, lambda: "areas add up to %r, the polygon has %r" % (area, whole))
    return {"nontrivial": len(pts) >= 100, "labels": [case["kind"], "skew=%d" % state["skew"],
                                                      "n=%d+" % (len(pts) // 200 * 200)]}


LEGS = [
    Leg("large", large_cases(), check_large, 40, 1200, "at least 100 sites"),
    Leg("small", gens.diagrams(2, 12), check, 1600, 30000, "at least four leaves at some step"),
    Leg("degenerate", gens.diagrams(6, 25, Rs=(3, 4, 5, 6, 8, 10, 12, 20)), check, 600, 15000,
        "at least four leaves at some step"),
    Leg("noisy", gens.noisy(5, 16), check_noisy, 400, 10000, "at least four leaves at some step, sites nearly in special position"),
    Leg("outside", c23.repeated(c23.outside(12)), check, 600, 12000, "at least four leaves at some step"),
    Leg("medium", gens.diagrams(30, 90, Rs=(20, 100, 1000)), check, 24, 600, "at least four leaves at some step"),
]
