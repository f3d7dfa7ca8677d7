"""Coordinates keep the exact numbers they are given."""
import math
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from ..diag import need
from ..runner import Leg

ASSUMPTIONS = ["numbers are int, float, Decimal and numpy scalars, finite; differences have at most 28 significant digits, the "
               "precision of Python's default decimal context"]

floats = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.floats(-1000, 1000), st.integers(-50, 50).map(
    lambda k: k / 10), st.sampled_from([0.0, -0.0, 0.1, 1e-7, 1e22, 5e-324, 1.7976931348623157e308, 0.1 + 0.2]))


@st.composite
def numbers(draw):
    """[kind, text]: the number is kind(text)."""
    kind = draw(st.sampled_from(["int", "float", "float", "dec", "dec", "np64", "np32", "npi", "npu", "npl", "none"]))
    if kind in ("int", "npi", "npu", "npl"):
        top = {"int": 10 ** 25, "npi": 2 ** 63 - 1, "npu": 127, "npl": 10 ** 9}[kind]
        n = draw(st.one_of(st.integers(-100, 100), st.integers(-top, top)))
        return [kind, str(abs(n) if kind == "npu" else n)]
    if kind in ("float", "np64"):
        return [kind, repr(float(draw(floats)))]
    if kind == "np32":
        return [kind, repr(float(np.float32(draw(st.floats(-1000, 1000, width=32)))))]
    if kind == "dec":
        return [kind, "%de%d" % (draw(st.one_of(st.integers(-999, 999), st.integers(-10 ** 20, 10 ** 20))),
                                 draw(st.integers(-20, 20)))]
    return [kind, ""]


def make(n):
    kind, text = n
    if kind == "none":
        return None
    return {"int": int, "float": float, "dec": Decimal, "np64": lambda t: np.float64(float(t)),
            "np32": lambda t: np.float32(float(t)), "npi": lambda t: np.int64(int(t)), "npu": lambda t: np.uint8(int(t)),
            "npl": lambda t: np.longdouble(int(t)) / 16}[kind](text)


@st.composite
def histories(draw):
    objs = draw(st.lists(st.tuples(st.sampled_from(["Coordinate", "Point", "Vertex"]), numbers(), numbers(),
                                   st.booleans()).map(list), min_size=1, max_size=3))
    n = len(objs) - 1
    op = st.one_of(
        st.tuples(st.sampled_from(["x", "y", "xd", "yd"]), st.integers(0, n), numbers()),
        st.tuples(st.sampled_from(["sub", "near"]), st.integers(0, n), st.integers(0, n)),
        st.tuples(st.just("link"), st.integers(0, n), st.integers(0, 9)))
    return {"objects": objs, "ops": [list(o) for o in draw(st.lists(op, max_size=10))]}


def value(n):
    x = make(n)
    return None if x is None else Decimal(str(x))


def same(got, want):
    """Equal as decimal numbers, including the way they were written (digits and exponent)."""
    if want is None or got is None:
        return got is want
    return isinstance(got, Decimal) and got == want


def nearest(got, want):
    return isinstance(got, float) and (got == float(want))


def check(case):
    from foronoi.graph import Coordinate, Point, Vertex
    cls = {"Coordinate": Coordinate, "Point": Point, "Vertex": Vertex}
    objs, model, links, owned = [], [], [], []
    for name, a, b, kw in case["objects"]:
        x, y = make(a), make(b)
        if name != "Vertex" and kw and x is None and y is None:
            o = cls[name]()
        elif kw:
            o = cls[name](x=x, y=y)
        elif name == "Point" and len(objs) % 2:
            first = object()
            o = Point(x, y, name=len(objs), first_edge=first)
            need(o.name == len(objs) and o.first_edge is first, "a site does not keep the name and first edge it is given")
            o.first_edge = None
        else:
            o = cls[name](x, y)
        if name == "Point":
            need(o.first_edge is None, "a new site has a border")
            need(o.name is None or len(objs) % 2, "a new site has the name %r" % (o.name,))
        objs.append(o)
        model.append([value(a), value(b)])
        links.append([])
    subs = 0
    sets = 0

    def look(when):
        for o, m, ln in zip(objs, model, links):
            need(same(o.xd, m[0]) and same(o.yd, m[1]), lambda: "%s: a %s is at (%r, %r), it was given (%s, %s)" % (
                when, type(o).__name__, o.xd, o.yd, m[0], m[1]))
            if m[0] is not None:
                need(nearest(o.x, m[0]), lambda: "%s: x of %s as a float is %r" % (when, m[0], o.x))
            if m[1] is not None:
                need(nearest(o.y, m[1]), lambda: "%s: y of %s as a float is %r" % (when, m[1], o.y))
            if None not in m:
                need(tuple(o.xy) == (float(m[0]), float(m[1])), lambda: "%s: xy is %r for %s" % (when, o.xy, m))
            if isinstance(o, Vertex):
                need(list(o.connected_edges) == ln, lambda: "%s: a vertex lists %r, %r were added to it" % (
                    when, o.connected_edges, ln))
    look("after creation")
    for k, (op, i, arg) in enumerate(case["ops"]):
        o = objs[i]
        if op in ("x", "y", "xd", "yd"):
            setattr(o, op, make(arg))
            model[i][op[0] == "y"] = value(arg)
            sets += 1
        elif op == "link":
            if isinstance(o, Vertex):
                o.connected_edges.append("e%d" % arg)
                links[i].append("e%d" % arg)
        elif op == "near":
            # a new vertex at the same place has a list of its own
            if None not in model[i]:
                w = Vertex(o.xd, o.yd)
                need(list(w.connected_edges) == [], "a new vertex already has edges")
                w.connected_edges.append("other")
                given = ["g"]
                w = Vertex(o.xd, o.yd, connected_edges=given)
                need(list(w.connected_edges) == ["g"], "a vertex does not take the edges it is given")
        else:
            p, q = model[i], model[arg]
            if None in p or None in q:
                continue
            want = []
            for a, b in zip(p, q):
                if digits(a, b) > 28:
                    break
                want.append(a - b)
            if len(want) < 2:
                continue
            d = o - objs[arg]
            need(same(d.xd, want[0]) and same(d.yd, want[1]), lambda: "%s - %s gives (%s, %s), exact is %s" % (
                p, q, d.xd, d.yd, want))
            need(isinstance(d, Coordinate), "a difference is no coordinate")
            if isinstance(o, Point):
                need(isinstance(d, Point), "the difference of two sites is no site")
            subs += 1
        look("after operation %d" % (k + 1))
    return {"nontrivial": subs + sets > 0, "labels": sorted({a[1][0] for a in case["objects"]}) + ["subs=%d" % min(subs, 3),
                                                                                               "sets=%d" % min(sets, 3)]}


def digits(a, b):
    """Significant digits the exact difference may need."""
    hi = max([x.adjusted() for x in (a, b) if x] + [-400])
    lo = min(x.as_tuple().exponent for x in (a, b))
    return hi - lo + 2


LEGS = [Leg("coordinates", histories(), check, 16000, 300000, "at least one set or subtraction")]
