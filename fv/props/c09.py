"""Adding a site only takes area from other cells, exactly what the new cell gets."""
from hypothesis import strategies as st

from . import c23
from .. import gens, oracles
from ..diag import Frame, Diagram, blank, run, reference, classify, need
from ..runner import Leg

ASSUMPTIONS = ["compared up to 1e-8 of the size; the sequence of sites is generated, every prefix is a diagram"]


def snapshot(D):
    return [D.loop(i) for i in range(D.n)], oracles.adjacency(D)


def check(case):
    fr_all = Frame(case)
    reference(fr_all)
    order = case["order"]
    prev = None
    hist = []
    for step in order:
        # a step is the list of sites that are present
        fr = Frame(dict(case, sites=[case["sites"][k] for k in step]))
        cells = reference(fr)
        D = Diagram(run(fr), fr, empty=blank(cells))
        cur = snapshot(D)
        tol = fr.tol
        if prev is not None:
            pstep, (ploops, padj) = prev
            small, large = (pstep, step) if len(pstep) < len(step) else (step, pstep)
            sl, ll = (ploops, cur[0]) if len(pstep) < len(step) else (cur[0], ploops)
            ladj = cur[1] if len(pstep) < len(step) else padj
            new = [k for k in large if k not in small][0]
            inew = large.index(new)
            lost = 0.0
            for a, k in enumerate(small):
                b = large.index(k)
                for p in ll[b]:
                    need(oracles.inside_convex(sl[a], p, 4 * tol),
                         lambda: "adding the site at %s extends the cell of the site at %s to %s" % (
                             case["sites"][new], case["sites"][k], oracles.show([p])))
                d = oracles.farea(sl[a]) - oracles.farea(ll[b])
                lost += d
                # (the region of a site outside of the polygon may vanish)
                if ll[b] and frozenset((inew, b)) not in ladj:
                    need(oracles.same_cycle(oracles.dedupe(sl[a], tol), oracles.dedupe(ll[b], tol), 4 * tol)
                         or abs(d) <= tol * fr.size * 4,
                         lambda: "adding the site at %s changes the cell of the site at %s, which it does not border"
                         % (case["sites"][new], case["sites"][k]))
            got = oracles.farea(ll[inew])
            need(abs(got - lost) <= tol * fr.size * (8 + len(large)),
                 lambda: "the new cell has area %.9g, the others lost %.9g" % (got, lost))
        for pstep, pcur in hist:
            if pstep == step:
                need(all(oracles.same_cycle(a, b, tol) for a, b in zip(pcur[0], cur[0])) and pcur[1] == cur[1],
                     "the same sites give another diagram later in the history")
        hist.append((step, cur))
        prev = (step, cur)
        del cells
    lab = classify(fr_all, reference(fr_all))
    return {"nontrivial": len(order) >= 2, "labels": lab + ["history=%d" % len(order)]}


@st.composite
def cases(draw, *a, base=gens.diagrams, **kw):
    case = draw(base(*a, **kw))
    n = len(case["sites"])
    start = draw(st.integers(1, n))
    cur = list(range(start))
    rest = list(range(start, n))
    order = [list(cur)]
    for _ in range(draw(st.integers(1, 4))):
        if rest and (len(cur) <= 1 or draw(st.booleans())):
            cur.insert(draw(st.integers(0, len(cur))), rest.pop(draw(st.integers(0, len(rest) - 1))))
        elif len(cur) > 1:
            rest.append(cur.pop(draw(st.integers(0, len(cur) - 1))))
        else:
            break
        order.append(list(cur))
    case["order"] = order
    return case


RULE = "at least one addition or removal happened"
LEGS = [
    Leg("small", cases(2, 9), check, 1500, 30000, RULE),
    Leg("degenerate", cases(4, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 1000, 25000, RULE),
    Leg("outside", cases(8, base=c23.outside), check, 700, 15000, RULE),
    Leg("medium", cases(15, 40, Rs=(20, 100, 1000)), check, 40, 1000, RULE),
    Leg("large", cases(70, 130, Rs=(100, 1000)), check, 12, 300, RULE),
]
