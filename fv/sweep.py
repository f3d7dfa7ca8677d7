"""Observation of a construction step by step (public state at STEP_FINISHED), for the checks C11-C13."""
from decimal import Decimal, localcontext

from .diag import need, fail  # noqa: F401


class Watcher:
    """Calls fn(subject) after every handled event; runs under the same cap as StepCap."""

    def __init__(self, fn, n):
        self.fn, self.steps, self.cap = fn, 0, 20 * n + 200

    def update(self, subject, message, **kw):
        if message.name == "STEP_FINISHED":
            self.steps += 1
            need(self.steps <= self.cap, "the sweep does not end")
            self.fn(subject)


def nodes_in_order(root, limit):
    """In-order list of nodes with bounded, non-recursive walking; (node, depth)."""
    out, stack, node, depth = [], [], root, 0
    while stack or node is not None:
        while node is not None:
            stack.append((node, depth))
            need(len(stack) <= limit, "the tree is deeper than it has nodes (a cycle?)")
            node, depth = node.left, depth + 1
        node, depth = stack.pop()
        out.append((node, depth))
        need(len(out) <= limit, "the tree has more nodes than arcs and breakpoints (a cycle?)")
        node, depth = node.right, depth + 1
    return out


def breakpoint_x(p, q, l):
    """x where the parabola of p (left) turns into that of q (right); sites (x, y) and l are Decimals; None if the
    pair has no such breakpoint.  Independent of the code: solves the equidistance equation in a stable form."""
    with localcontext() as ctx:
        ctx.prec = 60
        (px, py), (qx, qy) = p, q
        if py == qy:
            return (px + qx) / 2 if px < qx else None
        if py == l:
            return px
        if qy == l:
            return qx
        # (x-px)^2/(2(py-l)) + (py+l)/2 = (x-qx)^2/(2(qy-l)) + (qy+l)/2
        u, v = py - l, qy - l
        A = v - u
        B = -2 * (px * v - qx * u)
        C = px * px * v - qx * qx * u + u * v * (py - qy)
        disc = B * B - 4 * A * C
        if disc < 0:
            disc = Decimal(0)
        r = disc.sqrt()
        x1, x2 = (-B - r) / (2 * A), (-B + r) / (2 * A)
        lo, hi = min(x1, x2), max(x1, x2)
        # the lower site has the narrower parabola and lies between its two breakpoints
        return lo if qy < py else hi


def parabola_y(p, x, l):
    with localcontext() as ctx:
        ctx.prec = 60
        return ((x - p[0]) ** 2 / (p[1] - l) + p[1] + l) / 2
