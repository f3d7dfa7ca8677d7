"""Half-edges form one consistent structure with closed clockwise cells."""
from hypothesis import strategies as st

from .. import gens, oracles
from ..diag import Frame, Diagram, run, reference, classify
from ..runner import Leg

ASSUMPTIONS = ["with removal of zero-length edges on or off; orientation from the signed area of the loop"]


def check(case):
    fr = Frame(case)
    cells = reference(fr) if len(fr.sites) < 40 else None
    D = Diagram(run(fr, remove_zero=case.get("remove", True)), fr)
    oracles.check_structure(D)
    lab = classify(fr, cells) if cells else ["large"]
    return {"nontrivial": len(fr.sites) >= 2, "labels": lab + ["remove=%s" % case.get("remove", True)]}


def check_noisy(case):
    fr = Frame(case)
    D = Diagram(run(fr, remove_zero=case.get("remove", True)), fr)
    oracles.check_structure(D, oriented=False)
    return {"nontrivial": len(fr.sites) >= 3, "labels": ["n=%d" % len(fr.sites), "remove=%s" % case.get("remove", True)]}


@st.composite
def both_noisy(draw, *a, **k):
    case = draw(gens.noisy(*a, **k))
    case["remove"] = draw(st.sampled_from([True, True, False]))
    return case


@st.composite
def both(draw, *a, **k):
    case = draw(gens.diagrams(*a, **k))
    case["remove"] = draw(st.sampled_from([True, True, False]))
    return case


RULE = "at least two sites"
LEGS = [
    Leg("small", both(1, 8), check, 2200, 50000, RULE),
    Leg("degenerate", both(3, 14, Rs=(2, 3, 4, 5, 6, 8, 10, 12, 20)), check, 2200, 50000, RULE),
    Leg("large", both(40, 200, Rs=(20, 100, 1000)), check, 80, 1500, RULE),
    Leg("noisy", both_noisy(2, 12), check_noisy, 2000, 50000, "at least three sites, nearly in special position"),
]
