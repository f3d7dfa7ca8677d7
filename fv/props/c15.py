"""Observers get every message once, in order, with a consistent subject."""
import contextlib
import functools
import io
import math

from hypothesis import strategies as st

from .. import exact as X, gens, oracles
from ..diag import Frame, Diagram, StepCap, classify, fail, need, reference
from ..runner import Leg
from . import c23

ASSUMPTIONS = ["observers are not attached while a message is being delivered, none is attached twice at the same time, and they "
               "are compared by identity"]


@st.composite
def histories(draw):
    """Two diagram objects over one or two polygons, three recording observers, a history of operations."""
    big = draw(st.integers(1, 6))
    if draw(st.integers(0, 3)):
        case = draw(gens.diagrams(1, big, Rs=(6, 10, 20, 100)))
    else:  # sites outside of the polygon
        case = draw(c23.outside(big, remote=False))
    more = draw(st.lists(st.integers(0, 10 ** 6), max_size=3))
    d = draw(st.sampled_from([1, 2, 2]))
    op = st.one_of(st.tuples(st.just("attach"), st.integers(0, 1), st.integers(0, 2)),
                   st.tuples(st.just("attach"), st.integers(0, 1), st.integers(0, 2)),
                   st.tuples(st.just("detach"), st.integers(0, 1), st.integers(0, 2)),
                   st.tuples(st.just("create"), st.integers(0, 1), st.integers(0, 3)),
                   st.tuples(st.just("say"), st.integers(0, 1), st.integers(0, 2)),
                   st.tuples(st.just("polysay"), st.integers(0, 1), st.integers(0, 2)))
    ops = [list(o) for o in draw(st.lists(op, min_size=3, max_size=12))]
    if not any(o[0] == "create" for o in ops):
        ops.append(["create", 0, 0])
    return {"diagram": case, "subsets": more, "two": d == 2, "shared": draw(st.booleans()), "ops": ops,
            "zero": draw(st.booleans())}


class Recorder:
    """Appends everything it is told to one shared log, together with a picture of the sender at that moment."""

    def __init__(self, name, log, look):
        self.name, self.log, self.look = name, log, look

    def update(self, subject, message, **kwargs):
        self.log.append((self.name, subject, message, kwargs, self.look(subject, message)))


def check(case):
    import foronoi
    from foronoi.observers.message import Message
    dc = case["diagram"]
    # sets of sites: the whole one and deterministic subsets of it
    pools = [dc["sites"]]
    for m in case["subsets"]:
        sub = [s for i, s in enumerate(dc["sites"]) if (m >> i) & 1]
        pools.append(sub or dc["sites"][:1])
    frames = []
    for p in pools:
        d = dict(dc)
        d["sites"] = p
        frames.append(Frame(d))
    refs = [reference(f) for f in frames]
    polys = [frames[0].make_poly()]
    polys.append(polys[0] if case["shared"] else frames[0].make_poly())
    zero = case["zero"]
    vs = [foronoi.Voronoi(polys[0], remove_zero_length_edges=zero)]
    if case["two"]:
        vs.append(foronoi.Voronoi(polys[1], remove_zero_length_edges=zero))
    owner = {}          # polygon -> the diagram that used it last
    for v in vs:
        owner[id(v.bounding_poly)] = v
    log = []
    counter = {"steps": 0, "cap": 20 * len(dc["sites"]) + 200}

    def look(v, message):
        """What is visible at a message: copied, because it changes later."""
        if message == Message.STEP_FINISHED:
            counter["steps"] += 1
            if counter["steps"] > 3 * counter["cap"]:
                fail("the sweep does not end")
            e = v.event
            circle = not hasattr(e, "point") or e.point is None
            seen = True
            if not circle:
                seen = any(a.origin is e.point for a in v.arcs)
            else:
                seen = any(math.hypot(float(w.xd - e.center.xd), float(w.yd - e.center.yd)) <= current[0].tol * current[0].unit
                           for w in v.vertices)
            return {"event": e, "sweep": v.sweep_line, "y": e.yd, "circle": circle, "visible": seen,
                    "center": current[0].back(e.center) if circle else None}
        if message == Message.SWEEP_FINISHED:
            return {"empty": v.event_queue.empty(), "vertices": [current[0].back(w) for w in v.vertices],
                    "edges": len(v.edges)}
        if message == Message.VORONOI_FINISHED:
            D = Diagram(v, current[0], None, current[1])
            return {"D": D, "loops": [D.loop(i) for i in range(D.n)], "edges": [id(e) for e in v.edges],
                    "vertices": [id(w) for w in v.vertices]}
        return None
    obs = [Recorder(k, log, look) for k in range(3)]
    attached = [[] for _ in vs]
    # the sites of the set without a region in the polygon
    empty = [{i for i, c in enumerate(cells) if not c} for cells in refs]
    current = [frames[0], empty[0]]
    created = 0
    heard = 0
    labels = set()
    for name, d, arg in case["ops"]:
        v = vs[d % len(vs)]
        who = attached[d % len(vs)]
        del log[:]
        if name == "attach":
            if arg not in who:
                need(v.attach_observer(obs[arg]) is v, "attach_observer() does not return the diagram")
                who.append(arg)
            need(not log, "attaching an observer sends a message")
        elif name == "detach":
            if arg in who:
                v.detach_observer(obs[arg])
                who.remove(arg)
                labels.add("detached")
            need(not log, "detaching an observer sends a message")
        elif name in ("say", "polysay"):
            src = v if name == "say" else v.bounding_poly
            sender = v if name == "say" else owner[id(v.bounding_poly)]
            whom = attached[[i for i, x in enumerate(vs) if x is sender][0]]
            src.notify_observers(Message.DEBUG, payload="hello", extra=arg)
            need([(a, b, c, k) for a, b, c, k, _ in log]
                 == [(k, sender, Message.DEBUG, {"payload": "hello", "extra": arg}) for k in whom],
                 lambda: "a message from the %s reaches %s, attached in order: %s" % (
                     "diagram" if name == "say" else "polygon", [(x[0], x[1] is sender) for x in log], whom))
        else:
            fr = frames[arg % len(frames)]
            current[:] = [fr, empty[arg % len(frames)]]
            counter["steps"] = 0
            owner[id(v.bounding_poly)] = v
            v.create_diagram(fr.points())
            created += 1
            heard = max(heard, len(who))
            one_creation(v, fr, refs[arg % len(frames)], who, log, zero, labels)
        need([o for o in v.get_observers()] == [obs[k] for k in who], "get_observers() does not list the attached observers")
    return {"nontrivial": created >= 1 and heard >= 1,
            "labels": sorted(labels) + ["creations=%d" % min(created, 4), "observers=%d" % heard,
                                        "shared polygon" if case["shared"] and case["two"] else "own polygons"]}


def one_creation(v, fr, cells, who, log, zero, labels):
    from foronoi.observers.message import Message
    need(all(x[1] is v for x in log), "a message does not have the diagram as sender")
    need({x[0] for x in log} <= set(who), lambda: "observers %s are attached, %s got messages" % (who, {x[0] for x in log}))
    m = len(who)
    need(len(log) % max(1, m) == 0 and (m or not log), "observers did not get the same number of messages")
    if not m:
        return
    # every message goes to all observers, in attachment order
    for k in range(0, len(log), m):
        batch = log[k:k + m]
        need([x[0] for x in batch] == who, lambda: "message %d is delivered in the order %s, attached: %s" % (
            k // m, [x[0] for x in batch], who))
        need(all(x[2] is batch[0][2] and x[3] == batch[0][3] for x in batch), "observers get different messages")
    msgs = [log[k] for k in range(0, len(log), m)]
    kinds = [x[2].name for x in msgs]
    plain = [k for k in kinds if k != "DEBUG"]
    steps = plain.count("STEP_FINISHED")
    need(plain == ["STEP_FINISHED"] * steps + ["SWEEP_FINISHED", "VORONOI_FINISHED"],
         lambda: "the messages are %s" % plain)
    for x in msgs:
        if x[2] == Message.DEBUG:
            need(isinstance(x[3].get("payload"), str) and x[3]["payload"].strip(), "a debug message has no text")
    before = "start"
    for k in kinds:
        need(k == "DEBUG" or before == "DEBUG", lambda: "%s is not announced by a debug message (after %s)" % (k, before))
        before = k
    # steps: each handled event once
    tol = max(fr.tol, 1e-7 * fr.size)
    stepinfo = [x[4] for x in msgs if x[2] == Message.STEP_FINISHED]
    need(len({id(s["event"]) for s in stepinfo}) == len(stepinfo), "an event is announced twice")
    for s in stepinfo:
        need(s["sweep"] == s["y"], "at STEP_FINISHED the sweep line is not at the event that was handled")
        need(s["visible"], "at STEP_FINISHED the handled event has not taken effect")
    sites = [s["event"].point for s in stepinfo if not s["circle"]]
    need(len(sites) == len(fr.sites) and {id(p) for p in sites} == {id(p) for p in v.sites},
         lambda: "%d sites, but STEP_FINISHED for %d site events" % (len(fr.sites), len(sites)))
    centers = [s["center"] for s in stepinfo if s["circle"]]
    sweep = [x[4] for x in msgs if x[2] == Message.SWEEP_FINISHED][0]
    need(sweep["empty"], "at SWEEP_FINISHED there are still events in the queue")
    circles = X.delaunay_circles(fr.sites)
    if circles:
        labels.add("circle events")
    for c in circles:
        p = oracles.fl(c)
        far = tol * max(1.0, math.hypot(*p) / fr.size) ** 2
        need(any(oracles.near(p, q, far) for q in centers),
             lambda: "no STEP_FINISHED for the event at the vertex %s" % oracles.show([p]))
        need(any(oracles.near(p, q, far) for q in sweep["vertices"]),
             lambda: "at SWEEP_FINISHED the vertex %s is not there yet" % oracles.show([p]))
    # the end
    fin = [x[4] for x in msgs if x[2] == Message.VORONOI_FINISHED][0]
    oracles.check_cells(fin["D"], cells, zero_edges=not zero)
    need(fin["edges"] == [id(e) for e in v.edges] and sorted(fin["vertices"]) == sorted(id(w) for w in v.vertices),
         "the diagram changes after VORONOI_FINISHED")
    need(fin["loops"] == [Diagram(v, fr, None, fin["D"].empty).loop(i) for i in range(len(fr.sites))], "cells change after VORONOI_FINISHED")
    if not zero:
        kept = sum(1 for e in v.edges if e.incident_point is not None and e.twin.incident_point is not None)
        dropped = sweep["edges"] - kept
        a, b = kinds.index("SWEEP_FINISHED"), kinds.index("VORONOI_FINISHED")
        if dropped > 0:
            labels.add("polygon speaks")
        need(kinds[a:b].count("DEBUG") >= dropped, lambda: "the polygon dropped %d edges but only %d debug messages arrived" % (
            dropped, kinds[a:b].count("DEBUG")))


def check_debug(case):
    """The library's debug observer passes on exactly the text of the debug messages."""
    import foronoi
    from foronoi.observers.debug_observer import DebugObserver
    from foronoi.observers.message import Message
    fr = Frame(case)
    reference(fr)
    v = foronoi.Voronoi(fr.make_poly())
    got, want, other = [], [], []

    class Rec:
        def update(self, subject, message, **kw):
            if message == Message.DEBUG:
                want.append(kw["payload"])
            else:
                other.append(message)
    v.attach_observer(StepCap(len(fr.sites)))
    v.attach_observer(Rec())
    k = len(fr.sites) % 5

    class Callable:
        def __call__(self, text):
            got.append(text)

        def method(self, text):
            got.append(text)
    call = [got.append, lambda text: got.append(text), functools.partial(list.append, got), Callable(), Callable().method][k]
    v.attach_observer(DebugObserver(callback=call))
    v.attach_observer(DebugObserver())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v.create_diagram(fr.points())
        for text in ("", "0", "0", "one\ntwo", "one\ntwo", "0"):
            v.notify_observers(Message.DEBUG, payload=text)
        v.notify_observers(Message.STEP_FINISHED)
    need(got == want, lambda: "the debug observer passes on %d of %d messages" % (len(got), len(want)))
    need(out.getvalue() == "".join(w + "\n" for w in want), "the debug observer does not print the messages")
    need(want and all(isinstance(w, str) for w in want), "debug messages have no text")
    return {"nontrivial": len(want) >= 4, "labels": ["messages=%d+" % (len(want) // 10 * 10), "callback-%d" % k]}


def check_large(case):
    import foronoi
    fr = Frame(case)
    cells = reference(fr)
    v = foronoi.Voronoi(fr.make_poly())
    log = []

    def look(v, message):
        if message.name == "STEP_FINISHED":
            need(len(log) < 40 * len(fr.sites) + 400, "the sweep does not end")
            return {"event": v.event}
        if message.name == "VORONOI_FINISHED":
            return {"D": Diagram(v, fr)}
    v.attach_observer(Recorder(0, log, look))
    v.create_diagram(fr.points())
    plain = [x for x in log if x[2].name != "DEBUG"]
    names = [x[2].name for x in plain]
    k = len(plain) - 2
    need(names == ["STEP_FINISHED"] * k + ["SWEEP_FINISHED", "VORONOI_FINISHED"], "messages are out of order")
    evs = [x[4]["event"] for x in plain[:k]]
    need(len({id(e) for e in evs}) == k, "an event is announced twice")
    pts = [e.point for e in evs if hasattr(e, "point") and e.point is not None]
    need(len(pts) == len(fr.sites) and {id(p) for p in pts} == {id(p) for p in v.sites}, "not one message per site event")
    oracles.check_cells(plain[-1][4]["D"], cells)
    return {"nontrivial": k > len(fr.sites), "labels": classify(fr, cells)}


@st.composite
def leavings(draw):
    """Up to four observers, some of which detach themselves or others while they receive a message."""
    case = draw(gens.diagrams(1, 6, Rs=(6, 10, 20)))
    n = draw(st.integers(2, 4))
    stay = draw(st.integers(0, n - 1))
    plan = []
    for _ in range(draw(st.integers(1, 3))):
        # observer, at its k-th message (or the first of a kind), detaches these
        who = draw(st.integers(0, n - 1))
        when = draw(st.integers(0, 12) | st.sampled_from(["STEP_FINISHED", "SWEEP_FINISHED", "VORONOI_FINISHED", "DEBUG"]))
        plan.append([who, when, draw(st.lists(st.integers(0, n - 1).filter(lambda k: k != stay), min_size=1, max_size=2,
                                              unique=True)) if n > 1 else []])
    return {"diagram": case, "n": n, "stay": stay, "plan": plan, "again": draw(st.booleans()), "polygon": draw(st.booleans())}


def check_leaving(case):
    """Observers that are detached while a message is delivered: all others get that message, and they get no more."""
    import foronoi
    fr = Frame(case["diagram"])
    reference(fr)
    v = foronoi.Voronoi(fr.make_poly())
    log = []

    class Model:
        """What each observer should do and hear, given the stream of messages."""

        def __init__(self):
            self.there, self.heard, self.done = list(range(case["n"])), [[] for _ in range(case["n"])], set()

        def leaving(self, k, message):
            """The observers that k detaches on receiving this message."""
            self.heard[k].append(message)
            out = []
            for j, (who, when, whom) in enumerate(case["plan"]):
                if who == k and j not in self.done and when in (len(self.heard[k]) - 1, message):
                    self.done.add(j)
                    out += [w for w in whom if w in self.there and w not in out]
            for w in out:
                self.there.remove(w)
            return out
    real = Model()

    class Leaver:
        def __init__(self, k):
            self.k = k

        def update(self, subject, message, **kwargs):
            log.append((self.k, message.name, kwargs.get("payload")))
            if len(log) > 4 * 60 * (len(fr.sites) + 20):
                fail("the sweep does not end")
            for w in real.leaving(self.k, message.name):
                v.detach_observer(obs[w])
    obs = [Leaver(k) for k in range(case["n"])]
    for o in obs:
        v.attach_observer(o)
    v.create_diagram(fr.points())
    if case["again"]:
        v.create_diagram(fr.points())
    if case["polygon"]:
        from foronoi.observers.message import Message
        v.bounding_poly.notify_observers(Message.DEBUG, payload="hello")
    model, want = Model(), []
    for _, name, text in [x for x in log if x[0] == case["stay"]]:
        for k in list(model.there):
            if k in model.there:
                want.append((k, name, text))
                model.leaving(k, name)
    need(log == want, lambda: "message %s should have gone to observer %s, got %s" % next(
        ((a and a[1], b and b[0], a and a[0]) for a, b in zip(log + [None], want + [None]) if a != b), ))
    need(v.get_observers() == [obs[k] for k in model.there], "get_observers() does not list the observers that are left")
    gone = case["n"] - len(model.there)
    self_left = any(who in whom for j, (who, _, whom) in enumerate(case["plan"]) if j in model.done)
    return {"nontrivial": gone >= 1, "labels": ["gone=%d" % gone] + (["detached itself"] if self_left else [])}


LEGS = [
    Leg("histories", histories(), check, 2400, 50000, "a diagram is created with at least one observer attached"),
    Leg("leaving", leavings(), check_leaving, 900, 15000, "an observer is detached while a message is delivered"),
    Leg("debug", gens.diagrams(1, 7), check_debug, 600, 8000, "at least four debug messages"),
    Leg("medium", gens.diagrams(6, 16), check_large, 320, 6000, "at least one circle event"),
    Leg("large", gens.diagrams(40, 90, Rs=(20, 100, 1000)), check_large, 24, 500, "at least one circle event"),
]
