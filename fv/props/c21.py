"""Diagrams are independent: nothing carries over from one to the next."""
import threading

from hypothesis import strategies as st

from . import c23
from .. import gens, oracles
from ..diag import Frame, Diagram, StepCap, classify, need, reference
from ..runner import Leg
from .c16 import fingerprint

ASSUMPTIONS = ["two diagrams that share a polygon are created one after the other, not one inside an observer of the other"]


class Stop(Exception):
    pass


class Aborter:
    """An observer of the user that fails at the k-th message."""

    def __init__(self, k):
        self.k = k

    def update(self, subject, message, **kw):
        self.k -= 1
        if self.k < 0:
            raise Stop()


@st.composite
def histories(draw):
    hi = draw(st.sampled_from([3, 5, 8]))
    plain = gens.diagrams(1, hi, Rs=(4, 6, 10, 20, 100))
    first = draw(st.one_of(plain, plain, plain, c23.outside(hi)))
    second = draw(st.one_of(plain, plain, c23.outside(hi)))
    masks = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 4095)).map(list), min_size=1, max_size=4))
    op = st.one_of(
        st.tuples(st.just("create"), st.integers(0, 3), st.integers(0, 5)),
        st.tuples(st.just("create"), st.integers(0, 3), st.integers(0, 5)),
        st.tuples(st.just("new"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("abort"), st.integers(0, 3), st.integers(0, 40)),
        st.tuples(st.sampled_from(["plot", "area", "observe", "unobserve", "tree"]), st.integers(0, 3), st.integers(0, 2)))
    ops = [list(o) for o in draw(st.lists(op, min_size=2, max_size=9))] + [["create", draw(st.integers(0, 3)),
                                                                           draw(st.integers(0, 5))]]
    return {"diagrams": [first, second], "masks": masks, "ops": ops, "zero": draw(st.booleans())}


def check(case):
    import foronoi
    import matplotlib.pyplot as plt
    from foronoi.visualization import Visualizer
    sets = []
    for which, mask in [[0, 4095], [1, 4095]] + case["masks"]:
        d = dict(case["diagrams"][which])
        d["sites"] = [s for i, s in enumerate(d["sites"]) if (mask >> i) & 1] or d["sites"][:1]
        fr = Frame(d)
        cells = reference(fr)
        pts = fr.points()
        v = foronoi.Voronoi(fr.make_poly(), remove_zero_length_edges=case["zero"])
        v.attach_observer(StepCap(len(fr.sites)))
        v.create_diagram(list(pts))
        sets.append((which, fr, cells, pts, list(pts), fingerprint(v)))
    # one polygon object per input, shared by everything below
    polys = [sets[0][1].make_poly(), sets[1][1].make_poly()]
    outlines = [[(p.xd, p.yd) for p in q.points] for q in polys]
    objs = []       # (voronoi, which polygon)

    def new(which):
        v = foronoi.Voronoi(polys[which], remove_zero_length_edges=case["zero"])
        objs.append([v, which, None, None])    # object, polygon, fingerprint of its last diagram, its sites
    new(0)
    created = again = shared = aborted = 0
    used = set()
    labels = set()
    for k, (op, a, b) in enumerate(case["ops"]):
        o = objs[a % len(objs)]
        v = o[0]
        when = "after %s" % " ".join("%s" % x[0] for x in case["ops"][:k + 1])
        if op == "new":
            if len(objs) < 4:
                new(b % 2)
        elif op == "create":
            mine = [s for s in sets if s[0] == o[1]]
            which, fr, cells, pts, copy, want = mine[b % len(mine)]
            cap = StepCap(len(fr.sites))
            v.attach_observer(cap)
            v.create_diagram(pts)
            v.detach_observer(cap)
            need(pts == copy, "%s: the given list of sites was changed" % when)
            oracles.check_cells(Diagram(v, fr, None, {i for i, c in enumerate(cells) if not c}), cells, zero_edges=not case["zero"])
            got = fingerprint(v)
            for part in want:
                need(got[part] == want[part], lambda: "%s: the %s differ from those of a fresh diagram: %s instead of %s" % (
                    when, part, str(got[part])[:300], str(want[part])[:300]))
            created += 1
            again += o[2] is not None
            shared += o[1] in used and o[2] is None
            used.add(o[1])
            o[2], o[3] = got, list(v.sites)
        elif op == "abort":
            mine = [s for s in sets if s[0] == o[1]]
            ob = Aborter(b)
            v.attach_observer(ob)
            try:
                v.create_diagram(mine[b % len(mine)][3])
                o[2] = fingerprint(v)
            except Stop:
                aborted += 1
                o[2] = None
            v.detach_observer(ob)
            o[3] = None
        elif op == "observe":
            v.attach_observer([foronoi.VoronoiObserver(visualize_steps=False, callback=lambda ob, fig: None),
                               foronoi.TreeObserver(text_based=True, callback=lambda text: None),
                               StepCap(10 ** 6)][b])
            labels.add("observed")
        elif op == "unobserve":
            obs = v.get_observers()
            if obs:
                v.detach_observer(obs[0])
        elif o[2] is not None:
            if op == "plot":
                Visualizer(v).plot_all(polygon=True, border_to_site=True, outgoing_edges=True, site_labels=True,
                                       edge_labels=True)
            elif op == "area":
                for s in v.sites:
                    s.area(), s.vertices(), s.borders(), s.area(2)
            else:
                v.status_tree.visualize()
        # all finished results are still what they were
        for other in objs:
            if other[2] is not None:
                got = fingerprint(other[0])
                need(got == other[2], lambda: "%s: an earlier diagram has changed: %s" % (
                    when, [(p, str(got[p])[:200], str(other[2][p])[:200]) for p in got if got[p] != other[2][p]][:1]))
        for q, out in zip(polys, outlines):
            need([(p.xd, p.yd) for p in q.points] == out, "%s: the bounding polygon has other corners" % when)
    plt.close("all")
    return {"nontrivial": created >= 2 and (again + shared + aborted) > 0,
            "labels": sorted(labels) + ["created=%d" % created, "same object again=%d" % min(again, 3),
                                        "polygon shared=%d" % min(shared, 3), "aborted=%d" % min(aborted, 3)]}


@st.composite
def pairs(draw):
    """Larger diagrams, one after the other with one object."""
    a = draw(gens.diagrams(2, 25, Rs=(6, 10, 20, 100, 1000)))
    return {"diagram": a, "mask": draw(st.integers(0, 2 ** 25)), "zero": draw(st.booleans())}


def check_pairs(case):
    import foronoi
    d = dict(case["diagram"])
    fr = Frame(d)
    cells = reference(fr)
    sub = [s for i, s in enumerate(d["sites"]) if (case["mask"] >> i) & 1] or d["sites"][:1]
    d2 = dict(d)
    d2["sites"] = sub
    fr2 = Frame(d2)
    cells2 = reference(fr2)
    v = foronoi.Voronoi(fr.make_poly(), remove_zero_length_edges=case["zero"])
    v.attach_observer(StepCap(len(fr.sites)))
    prints = []
    for f, c in ((fr, cells), (fr2, cells2), (fr, cells)):
        v.attach_observer(StepCap(len(f.sites)))
        v.create_diagram(f.points())
        v.detach_observer(v.get_observers()[-1])
        v.get_observers()[0].n = 0
        oracles.check_cells(Diagram(v, f), c, zero_edges=not case["zero"])
        prints.append(fingerprint(v))
    need(prints[0] == prints[2], lambda: "creating the same diagram again gives other %s" % [
        p for p in prints[0] if prints[0][p] != prints[2][p]])
    return {"nontrivial": len(sub) < len(fr.sites), "labels": classify(fr, cells)}


@st.composite
def interleavings(draw):
    """Two or three diagrams, each with its own polygon, and a schedule that says who continues at each message."""
    n = draw(st.sampled_from([2, 2, 3]))
    hi = draw(st.sampled_from([4, 7, 12]))
    base = gens.diagrams(1, hi, Rs=(4, 6, 10, 20, 100))
    cases = [draw(st.one_of(base, base, c23.outside(hi))) for _ in range(n)]
    like = draw(st.integers(0, 5))
    if like == 0:
        cases[-1] = cases[0]
    elif like <= 2:  # all at the same heights
        cases[-1] = dict(cases[0], **{k: [[-x, y] for x, y in cases[0][k]] for k in ("sites", "poly")})
    turns = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 6)).map(list), min_size=2, max_size=40))
    return {"diagrams": cases, "turns": turns, "zero": draw(st.booleans()), "threads": draw(st.booleans())}


class Baton:
    """Lets exactly one of several threads run, from message to message, as a schedule says."""

    def __init__(self, n, turns):
        self.cond, self.n, self.turns = threading.Condition(), n, [list(t) for t in turns]
        self.done, self.switches, self.now = set(), 0, turns[0][0]

    def wait(self, me):
        with self.cond:
            while self.now != me:
                self.cond.wait()

    def step(self, me):
        """One message: continue, or hand over to another one."""
        with self.cond:
            while self.turns and (self.turns[0][0] in self.done or self.turns[0][1] <= 0):
                self.turns.pop(0)
            nxt = me
            if self.turns:
                nxt = self.turns[0][0]
                self.turns[0][1] -= 1
            if nxt in self.done:
                left = [k for k in range(self.n) if k not in self.done]
                nxt = left[0] if left else me
            if nxt != me:
                self.switches += 1
                self.now = nxt
                self.cond.notify_all()
                while self.now != me:
                    self.cond.wait()

    def finish(self, me):
        with self.cond:
            self.done.add(me)
            left = [k for k in range(self.n) if k not in self.done]
            if left:
                self.now = left[0]
                self.cond.notify_all()


def check_interleaved(case):
    """Diagrams that are created at the same time, in threads or inside an observer of another one, do not disturb each other."""
    import foronoi
    frames, cells, want = [], [], []

    def make(fr):
        v = foronoi.Voronoi(fr.make_poly(), remove_zero_length_edges=case["zero"])
        v.attach_observer(StepCap(len(fr.sites)))
        return v
    for d in case["diagrams"]:
        fr = Frame(d)
        frames.append(fr)
        cells.append(reference(fr))
        v = make(fr)
        v.create_diagram(fr.points())
        want.append(fingerprint(v))
    n = len(frames)
    vs = [make(fr) for fr in frames]
    errors = []
    if case["threads"]:
        baton = Baton(n, case["turns"])

        class Hand:
            def __init__(self, k):
                self.k = k

            def update(self, subject, message, **kw):
                baton.step(self.k)

        def work(k):
            baton.wait(k)
            try:
                vs[k].create_diagram(frames[k].points())
            except BaseException as e:
                errors.append(e)
            baton.finish(k)
        for k, v in enumerate(vs):
            v.attach_observer(Hand(k))
        threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        switches = baton.switches
    else:
        # at its given message each one waits for the next one to be created completely
        starts = [t[1] * (1 + t[0]) for t in case["turns"]]
        begun = []

        class Nest:
            def __init__(self, k):
                self.k, self.left = k, starts[k % len(starts)]

            def update(self, subject, message, **kw):
                self.left -= 1
                if self.left == 0 and self.k + 1 < n:
                    begun.append(self.k + 1)
                    vs[self.k + 1].create_diagram(frames[self.k + 1].points())
        for k, v in enumerate(vs):
            v.attach_observer(Nest(k))
        vs[0].create_diagram(frames[0].points())
        switches = len(begun)
        for k in range(1, n):
            if k not in begun:
                vs[k].create_diagram(frames[k].points())
    if errors:
        raise errors[0]
    how = "created at the same time" if case["threads"] else "created inside an observer of another one"
    for v, fr, c, w in zip(vs, frames, cells, want):
        oracles.check_cells(Diagram(v, fr, None, {i for i, x in enumerate(c) if not x}), c, zero_edges=not case["zero"])
        got = fingerprint(v)
        for part in w:
            need(got[part] == w[part], lambda: "a diagram %s has other %s: %s instead of %s" % (
                how, part, str(got[part])[:300], str(w[part])[:300]))
    return {"nontrivial": switches >= 1, "labels": ["threads" if case["threads"] else "nested", "switches=%d" % min(switches, 10)]}


LEGS = [
    Leg("histories", histories(), check, 1200, 25000,
        "at least two diagrams are created, and an object or a polygon is reused or a construction was aborted"),
    Leg("interleaved", interleavings(), check_interleaved, 800, 15000,
        "one diagram continues between two messages of another one"),
    Leg("again", pairs(), check_pairs, 400, 8000, "the second diagram has fewer sites than the first"),
]
