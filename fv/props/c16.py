"""Watching a construction never changes it, and observers honour their options."""
import contextlib
import copy
import io
import re

from hypothesis import strategies as st

from .. import gens
from . import c23
from ..diag import Frame, StepCap, need
from ..figure import describe, difference
from ..runner import Leg
from ..sweep import nodes_in_order

ASSUMPTIONS = ["figures are compared with what the library's Visualizer draws at the same moment with the settings the "
               "observer should use; what the Visualizer draws is decided by C17",
               "the tree observer shows the result only if it does not show the steps (as it is implemented: the last "
               "step has shown the same tree)"]

FLAGS = ["polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels",
         "triangles", "arcs", "sweep_line", "events", "arc_labels", "beach_line"]
# the documented presets
PRESETS = {"STEP_FINISHED": dict(polygon=True, events=True, beach_line=True, sweep_line=True),
           "SWEEP_FINISHED": dict(polygon=True), "VORONOI_FINISHED": {}}

# the documented default options
DEFAULTS = {"voronoi": dict(steps=True, clip=False, result=True, size=[8, 8], offset=1, settings=None),
            "tree": dict(steps=True, result=True, text=False)}


@st.composite
def watched(draw, tops=(2, 3, 3, 5, 7)):
    top = draw(st.sampled_from(tops))
    how = draw(st.integers(0, 5))
    if how == 0:  # sites outside of the polygon, and repeated ones
        case = draw(c23.outside(top, remote=False))
        if draw(st.booleans()):
            case["sites"].append(list(draw(st.sampled_from(case["sites"]))))
    elif how < 5:
        case = draw(gens.diagrams(1, top, Rs=(6, 10, 20, 100), remote=False))
    else:  # vertices far outside of the canvas
        case = draw(gens.noisy(min(top, 3), top, Rs=(6, 20)))
    obs = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["voronoi", "voronoi", "voronoi", "tree", "tree", "debug"]))
        o = {"kind": kind, "call": draw(st.integers(0, 3)) > 0}
        if kind != "debug" and draw(st.integers(0, 5)) == 0:
            # nothing but the callback is given
            o.update(DEFAULTS[kind], defaults=True)
        elif kind == "voronoi":
            o.update(steps=draw(st.booleans()), clip=draw(st.booleans()), result=draw(st.booleans()),
                     size=draw(st.sampled_from([[8, 8], [8, 8], [4, 6], [3, 3], [10, 2]])),
                     offset=draw(st.sampled_from([1, 1, 0, 5, 0.5])),
                     settings=draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(FLAGS), st.booleans(), max_size=5),
                                             st.dictionaries(st.sampled_from(FLAGS + ["scale"]), st.booleans(), max_size=14))))
            if o["settings"] and "scale" in o["settings"]:
                o["settings"]["scale"] = draw(st.sampled_from([0.5, 1, 2, 3.25]))
        elif kind == "tree":
            o.update(steps=draw(st.booleans()), result=draw(st.booleans()), text=draw(st.booleans()))
        obs.append(o)
    return {"diagram": case, "observers": obs}


def label(nd):
    """A leaf is labelled with its arc's site, an inner node with the two sites of its breakpoint."""
    data = nd.get_value()
    return "%s,%s" % tuple(p.name for p in data.breakpoint) if hasattr(data, "breakpoint") else str(data.origin.name)


def tree_text(root, limit):
    """The tree from right to left, one node per line, indented by depth."""
    return "".join("\n" + "    " * d + label(nd) for nd, d in reversed(nodes_in_order(root, limit)))


def tree_shape(node):
    return (label(node), [tree_shape(c) for c in (node.left, node.right) if c is not None])


def dot_shape(source):
    """Labels and shape of a graphviz tree, children in the order of their edges."""
    labels, kids, parents = {}, {}, set()
    for line in source.splitlines():
        m = re.match(r'\s*"?([\w-]+)"? -> "?([\w-]+)"?\s*$', line)
        if m:
            kids.setdefault(m.group(1), []).append(m.group(2))
            need(m.group(2) not in parents, "a node of the drawn tree has two parents")
            parents.add(m.group(2))
            continue
        m = re.match(r'\s*"?([\w-]+)"? \[label="?([^"\]]*)"?\]', line)
        if m:
            labels[m.group(1)] = m.group(2)
    roots = [k for k in labels if k not in parents]
    need(len(roots) == 1, "the drawn tree has %d roots" % len(roots))
    used = [0]

    def shape(k):
        used[0] += 1
        need(used[0] <= len(labels), "the drawn tree has a cycle")
        return labels.get(k), [shape(c) for c in kids.get(k, [])]
    res = shape(roots[0])
    need(used[0] == len(labels), "the drawn tree is not connected")
    return res


def tolist(s):
    return [s[0], [tolist(c) for c in s[1]]]


def fingerprint(v):
    """Everything a user can see of a finished diagram, exactly."""
    loops = []
    for s in v.sites:
        loops.append((s.name, str(s.xd), str(s.yd), [(str(e.origin.xd), str(e.origin.yd), e.twin.incident_point and
                                                      e.twin.incident_point.name) for e in s.borders()]))
    edges = [(str(e), str(e.origin.xd), str(e.origin.yd), str(e.target.xd), str(e.target.yd)) for e in v.edges]
    verts = sorted((w.xd, w.yd, sorted(str(e) for e in w.connected_edges)) for w in v.vertices)
    return {"cells": loops, "edges": edges, "vertices": verts, "areas": [s.area() for s in v.sites],
            "tree": tolist(tree_shape(v.status_tree)), "sweep line": v.sweep_line, "arcs": len(v.arcs)}


def state(v):
    """What the observers of a construction can see at this moment, exactly."""
    def end(o):
        if hasattr(o, "breakpoint"):
            return [p.name for p in o.breakpoint]
        return str(o.xd), str(o.yd)
    e, b = v.event, v.bounding_poly
    return {"sites": [(s.name, str(s.xd), str(s.yd)) for s in v.sites],
            "edges": [(str(h.incident_point), end(h.origin), str(h.twin.incident_point), end(h.twin.origin),
                       str(h.next), str(h.prev)) for h in v.edges],
            "vertices": sorted((str(w.xd), str(w.yd), sorted(str(h) for h in w.connected_edges)) for w in v.vertices),
            "arcs": sorted(a.origin.name for a in v.arcs), "sweep line": str(v.sweep_line),
            "tree": tolist(tree_shape(v.status_tree)),
            "event": (type(e).__name__, str(e.xd), str(e.yd), getattr(e, "is_valid", None)),
            "bounding polygon": ([(str(x), str(y)) for x, y in b.get_coordinates()], str(b.min_x), str(b.max_x),
                                 str(b.min_y), str(b.max_y))}


class Record:
    """Records the state at every message that is not a debug message."""

    def __init__(self):
        self.states = []

    def update(self, subject, message, **kw):
        if message.name != "DEBUG":
            self.states.append((message.name, state(subject)))


def same_states(got, want, what):
    need([m for m, _ in got] == [m for m, _ in want], "with observers there are other messages")
    for k, ((m, g), (_, w)) in enumerate(zip(got, want)):
        for key in w:
            need(g[key] == w[key], lambda: "%s, at message %d (%s): the %s are %s instead of %s" % (
                what, k, m, key, str(g[key])[:300], str(w[key])[:300]))


class Alone:
    """An observer with what it prints and shows by itself, and what it would have to print."""

    def __init__(self, ob, shown, v, limit):
        self.ob, self.current, self.v, self.limit = ob, shown, v, limit
        self.printed, self.shown, self.texts = io.StringIO(), [], []

    def update(self, subject, message, **kw):
        self.texts.append((message.name, (str(kw.get("payload")) if message.name == "DEBUG" else
                                          tree_text(self.v.status_tree, self.limit)) + "\n"))
        self.current[0] = (self, message.name)
        with contextlib.redirect_stdout(self.printed):
            self.ob.update(subject, message, **kw)
        self.current[0] = None


@contextlib.contextmanager
def stand_ins(current):
    """Windows are not opened and files are not written: the calls that would are recorded for the observer that makes them."""
    import graphviz
    import matplotlib.pyplot as plt

    def record(*a, **k):
        need(current[0] is not None, "something is shown that belongs to no observer")
        w, message = current[0]
        if a and hasattr(a[0], "source"):
            need(tolist(dot_shape(a[0].source)) == tolist(tree_shape(w.v.status_tree)), "another tree is rendered")
        w.shown.append((message, a))
    was = plt.show, graphviz.Digraph.render, graphviz.Digraph.view
    plt.show, graphviz.Digraph.render, graphviz.Digraph.view = record, record, record
    try:
        yield
    finally:
        plt.show, graphviz.Digraph.render, graphviz.Digraph.view = was


def check(case):
    import foronoi
    import matplotlib.pyplot as plt
    from foronoi.observers.debug_observer import DebugObserver
    from foronoi.visualization import Presets, Visualizer
    from foronoi.visualization.tree_visualizer import TreeVisualizer
    need([Presets.construction, Presets.clipping, Presets.final]
         == [PRESETS[k] for k in ("STEP_FINISHED", "SWEEP_FINISHED", "VORONOI_FINISHED")],
         "the presets are not the documented ones any more")
    fr = Frame(case["diagram"])
    limit = 40 * len(fr.sites) + 100
    base = foronoi.Voronoi(fr.make_poly())
    base.attach_observer(StepCap(len(fr.sites)))
    alone = Record()
    base.attach_observer(alone)
    base.create_diagram(fr.points())
    want = fingerprint(base)
    presets0 = copy.deepcopy([Presets.construction, Presets.clipping, Presets.final])
    style0 = dict(plt.rcParams)

    v = foronoi.Voronoi(fr.make_poly())
    v.attach_observer(StepCap(len(fr.sites)))
    now = [None]
    told = {"STEP_FINISHED": 0, "SWEEP_FINISHED": 0, "VORONOI_FINISHED": 0, "DEBUG": 0}

    class First:
        def update(self, subject, message, **kw):
            now[0] = message
            told[message.name] += 1
    v.attach_observer(First())
    first, last = Record(), Record()
    v.attach_observer(first)
    obs, calls, texts = [], [], []
    shown, wraps = [None], []
    for k, o in enumerate(case["observers"]):
        log = []
        calls.append(log)

        def on_figure(observer, figure, k=k, log=log):
            need(observer is obs[k], "a callback gets another observer")
            need(observer.n_messages == len(log), lambda: "at callback %d the observer counts %d" % (len(log),
                                                                                                  observer.n_messages))
            o = case["observers"][k]
            got = describe(figure)
            title = figure.get_axes()[0].get_title().strip()
            about = {"STEP_FINISHED": str(v.event), "SWEEP_FINISHED": "Sweep finished", "VORONOI_FINISHED": "Voronoi completed"}
            need(title == about[now[0].name], lambda: "at %s the picture's title is %r, it should be %r" % (
                now[0].name, title, about[now[0].name]))
            kw = {**PRESETS[now[0].name], **(o["settings"] or {})}
            own = Visualizer(v, canvas_offset=o["offset"], figsize=tuple(o["size"]))
            ref = describe(own.plot_all(**kw).get_canvas())
            d = difference(got, ref)
            need(d is None, lambda: "at %s the picture of an observer with settings %s differs from those settings: %s" % (
                now[0].name, o["settings"], d))
            need(got["size"] == tuple(map(float, o["size"])), "the figure size is ignored")
            log.append(now[0])

        def on_dot(observer, dot, k=k, log=log):
            need(observer is obs[k], "a callback gets another observer")
            need(observer.n_messages == len(log), "the tree observer's count at a callback is wrong")
            need(tolist(dot_shape(dot.source)) == tolist(tree_shape(v.status_tree)),
                 "the drawn tree is not the diagram's status tree")
            log.append(now[0])

        def on_text(text, k=k, log=log):
            need(text == tree_text(v.status_tree, limit), lambda: "the tree is shown as %r" % text)
            log.append(now[0])
        call = o.get("call", True)
        settings = None
        if o["kind"] == "voronoi":
            settings = dict(o["settings"]) if o["settings"] is not None else None
            kw = dict(visualize_steps=o["steps"], visualize_before_clipping=o["clip"], visualize_result=o["result"],
                      figsize=tuple(o["size"]), canvas_offset=o["offset"], settings=settings)
            ob = foronoi.VoronoiObserver(**({} if o.get("defaults") else kw), **({"callback": on_figure} if call else {}))
        elif o["kind"] == "tree":
            kw = dict(visualize_steps=o["steps"], visualize_result=o["result"], text_based=o["text"])
            ob = foronoi.TreeObserver(**({} if o.get("defaults") else kw),
                                      **({"callback": on_text if o["text"] else on_dot} if call else {}))
        else:
            def on_debug(text, log=log):
                need(isinstance(text, str), "a debug message without text")
                log.append(now[0])
            ob = DebugObserver(callback=on_debug) if call else DebugObserver()
        texts.append(settings)
        obs.append(ob)
        wraps.append(Alone(ob, shown, v, limit))
        v.attach_observer(wraps[-1])
    v.attach_observer(last)
    with stand_ins(shown):
        v.create_diagram(fr.points())
    plt.close("all")
    # nothing changes
    same_states(first.states, alone.states, "with observers")
    same_states(last.states, alone.states, "after the observers")
    got = fingerprint(v)
    for k in want:
        need(got[k] == want[k], lambda: "with observers the %s differ: %s instead of %s" % (k, str(got[k])[:300],
                                                                                           str(want[k])[:300]))
    need([Presets.construction, Presets.clipping, Presets.final] == presets0, "the presets were changed")
    need(dict(plt.rcParams) == style0, "matplotlib's settings were changed")
    # options
    figures = 0
    for k, (o, ob, log) in enumerate(zip(case["observers"], obs, calls)):
        names = [m.name for m in log]
        call = o.get("call", True)
        w = wraps[k]
        if o["kind"] == "debug":
            expect = ["DEBUG"] * told["DEBUG"]
        elif o["kind"] == "voronoi":
            expect = ["STEP_FINISHED"] * (told["STEP_FINISHED"] if o["steps"] else 0) \
                + ["SWEEP_FINISHED"] * o["clip"] + ["VORONOI_FINISHED"] * o["result"]
            need(texts[k] == o["settings"], "the settings given to an observer were changed")
            figures += len(expect)
        else:
            expect = ["STEP_FINISHED"] * (told["STEP_FINISHED"] if o["steps"] else 0)
            if not o["steps"] and o["result"]:
                expect = ["VORONOI_FINISHED"]
        if call:
            need(names == expect, lambda: "observer %s called back for %s, its options select %s" % (o, names, expect))
            need(not w.shown and w.printed.getvalue() == "", "an observer with a callback prints or shows something itself")
        elif o["kind"] == "voronoi" or (o["kind"] == "tree" and not o["text"]):
            need(w.printed.getvalue() == "", "an observer of pictures prints something")
            need([m for m, _ in w.shown] == expect, lambda: "observer %s showed a picture at %s, its options select %s" % (
                o, [m for m, _ in w.shown], expect))
        else:
            want = "".join(t for m, t in w.texts if m in expect[:1])
            need(w.printed.getvalue() == want, lambda: "observer %s printed %r instead of %r" % (
                o, w.printed.getvalue()[:300], want[:300]))
        if o["kind"] != "debug":
            need([m.name for m in ob.messages] == expect and ob.n_messages == len(expect),
                 lambda: "observer %s recorded %s (count %d), it showed %s" % (o, ob.messages, ob.n_messages, expect))
    need(tolist(dot_shape(TreeVisualizer().plot(v.status_tree).source)) == tolist(tree_shape(v.status_tree)),
         "the tree visualizer draws another tree")
    return {"nontrivial": figures > 0 or any(c for c in calls),
            "labels": ["figures=%s" % ("0" if not figures else "1-4" if figures < 5 else "5+"),
                       "observers=%d" % len(obs)] + sorted({"has " + o["kind"] for o in case["observers"]})
            + sorted({"setting " + s for o in case["observers"] for s in (o.get("settings") or {})})}


LEGS = [Leg("observers", watched(), check, 900, 15000, "at least one callback"),
        Leg("larger", watched((14, 25)), check, 24, 500, "at least one callback")]
