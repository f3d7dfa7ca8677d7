"""The search tree behaves like a sorted collection under any operation history."""
import bisect

from hypothesis import strategies as st

from ..diag import need, fail
from ..runner import Leg
from ..sweep import nodes_in_order

ASSUMPTIONS = ["for leaf replacements, balance within one level is checked when two leaves take the place of one (three at "
               "once raise a subtree by two levels, more than one rotation can absorb)"]


def classes():
    from foronoi.tree.node import Node

    class Keyed(Node):
        """Key and payload are different things, and the key depends on an argument of the operation."""

        def get_key(self, sign=1, shift=0, **kwargs):
            return sign * self.data[0] + shift
    return Node, Keyed


def structure(root, limit, balanced, what):
    """Checks parents, heights, balance; returns the nodes in order."""
    if root is None:
        return []
    need(root.parent is None, "%s: the root has a parent" % what)
    ns = nodes_in_order(root, limit)
    need(len({id(nd) for nd, _ in ns}) == len(ns), "%s: a node occurs twice" % what)
    height = {}
    for nd, d in sorted(ns, key=lambda t: -t[1]):
        hl = height[id(nd.left)] if nd.left is not None else 0
        hr = height[id(nd.right)] if nd.right is not None else 0
        h = height[id(nd)] = 1 + max(hl, hr)
        for c, left in ((nd.left, True), (nd.right, False)):
            if c is not None:
                need(c.parent is nd, "%s: a child does not point to its parent" % what)
                need(bool(c.is_left_child()) == left and bool(c.is_right_child()) == (not left),
                     "%s: is_left_child() or is_right_child() is wrong" % what)
                need(c.grandparent is nd.parent, "%s: grandparent is wrong" % what)
        need(nd.is_leaf() == (nd.left is None and nd.right is None), "%s: is_leaf() is wrong" % what)
        need(nd.height == h, lambda: "%s: a node of height %d says %r" % (what, h, nd.height))
        need(nd.balance == hl - hr, lambda: "%s: a node with balance %d says %r" % (what, hl - hr, nd.balance))
        if balanced:
            need(abs(hl - hr) <= 1, lambda: "%s: subtrees of height %d and %d under one node" % (what, hl, hr))
    return [nd for nd, _ in ns]


def show(root, nodes, what):
    """The text of a tree: one line per node with its label, from right to left, deeper ones further to the right."""
    lines = [s for s in root.visualize().split("\n") if s.strip()]
    need(len(lines) == len(nodes), lambda: "%s: visualize() has %d lines for %d nodes" % (what, len(lines), len(nodes)))
    indent = {}
    for line, nd in zip(lines, nodes[::-1]):
        need(str(nd.get_label()) == line.strip(), lambda: "%s: visualize() shows %r for %r" % (what, line, nd.get_label()))
        need(str(nd.get_key()) in line, lambda: "%s: visualize() shows %r for the key %r" % (what, line, nd.get_key()))
        indent[id(nd)] = len(line) - len(line.lstrip())
    need(indent[id(root)] == 0, "%s: visualize() indents the root" % what)
    for nd in nodes:
        for c in (nd.left, nd.right):
            need(c is None or indent[id(c)] == indent[id(nd)] + indent_step(root, indent), "%s: visualize() indents a node "
                 "by other than its depth" % what)


def indent_step(root, indent):
    return [indent[id(c)] for c in (root.left, root.right) if c is not None][0]


# --- keys -----------------------------------------------------------------------------------------------------------

@st.composite
def key_histories(draw):
    distinct = draw(st.booleans())
    span = draw(st.sampled_from([4, 8, 20, 60, 200]))
    key = st.integers(0, span)
    ops = []
    kind = draw(st.sampled_from(["mix", "mix", "rising", "falling", "grow"]))
    if kind in ("rising", "falling", "grow"):
        ks = draw(st.lists(key, max_size=60, unique=True))
        if kind == "rising":
            ks.sort()
        elif kind == "falling":
            ks.sort(reverse=True)
        ops += [["i", k] for k in ks]
    weights = draw(st.sampled_from(["iiidfvml", "iidddfvml", "ididid"]))
    m = draw(st.sampled_from([0, 5, 15, 30, 50]))
    ops += draw(st.lists(st.tuples(st.sampled_from(weights), key).map(list), min_size=m, max_size=60))
    if draw(st.booleans()):
        ops += [["d", k] for k in draw(st.permutations(sorted({k for o, k in ops if o == "i"})))]
    return {"ops": ops, "sign": draw(st.sampled_from([0, 0, 1, -1])), "shift": draw(st.sampled_from([0, 0, 1000])),
            "distinct": distinct}


def check_keys(case):
    from foronoi.tree.tree import Tree
    Node, Keyed = classes()
    sign, shift = case["sign"], case["shift"]
    kw = {} if sign == 0 else {"sign": sign, "shift": shift}
    serial = 0
    root = None
    model = []     # sorted keys as the tree sees them
    pay = {}       # key -> payloads
    seen = max_n = dels = 0
    dup = False
    for n, (op, k) in enumerate(case["ops"]):
        key = k if sign == 0 else sign * k + shift
        what = "after %d operations" % (n + 1)
        size = len(model)
        if op == "i":
            if case["distinct"] and key in pay:
                continue
            dup = dup or key in pay
            serial += 1
            root = Tree.insert(root, Node(k) if sign == 0 else Keyed((k, serial)), **kw)
            bisect.insort(model, key)
            pay.setdefault(key, []).append(serial)
        elif op == "d":
            before = len(model)
            root = Tree.delete(root, key, **kw)
            if key in pay:
                dels += 1
                model.remove(key)
                left = pay[key]
                if sign == 0 or len(left) == 1:
                    left.pop()
                else:  # any one of the equal keys may go
                    have = [nd.data[1] for nd in structure(root, 4 * before + 9, False, what)
                            if nd.get_key(**kw) == key]
                    need(len(have) == len(left) - 1 and set(have) < set(left),
                         lambda: "%s: deleting one of %d equal keys left %d" % (what, len(left), len(have)))
                    pay[key] = have
                if not pay[key]:
                    del pay[key]
        nodes = structure(root, 4 * size + 9, True, what)
        got = [nd.get_key(**kw) for nd in nodes]
        need(got == model, lambda: "%s the tree holds %s, a sorted list %s" % (what, got, model))
        if sign:
            need(sorted(nd.data[1] for nd in nodes) == sorted(s for v in pay.values() for s in v),
                 "%s a key has the wrong value" % what)
        max_n = max(max_n, len(model))
        if root is not None:
            need(root.minimum() is nodes[0] and root.maximum() is nodes[-1], "%s: minimum() or maximum() is wrong" % what)
            if op == "l":
                show(root, nodes, what)
                leaves = Tree.get_leaves(root)
                want = [nd for nd in nodes if nd.left is None and nd.right is None]
                need(len(leaves) == len(want) and all(a is b for a, b in zip(leaves, want)),
                     "%s: get_leaves() does not list the leaves in order" % what)
            for nd in nodes:
                if nd.left is not None and nd.right is not None:
                    pos = [j for j, m in enumerate(nodes) if m is nd][0]
                    need(nd.predecessor is nodes[pos - 1] and nd.successor is nodes[pos + 1],
                         "%s: predecessor or successor of a node with two subtrees is wrong" % what)
        probe = [key, key + 1, key - 1] if op == "f" else [key]
        for q in probe:
            hit = Tree.find(root, q, **kw)
            need((hit is not None) == (q in pay), lambda: "%s find(%r) gives %r for the keys %s" % (what, q, hit and hit.data,
                                                                                                model))
            if hit is not None:
                need(any(hit is nd for nd in nodes) and hit.get_key(**kw) == q, "%s find() gives another key" % what)
                seen += 1
        if op == "v":
            if sign == 0:
                hit = Tree.find_value(root, Node(k))
                need((hit is not None) == (key in pay) and (hit is None or (hit.data == k and any(hit is m for m in nodes))),
                     lambda: "%s: find_value(%r) gives %r" % (what, k, hit and hit.data))
                hit = Tree.find_value(root, Node(k), compare=lambda a, b: False)
                need(hit is None, "%s: find_value() ignores its comparison" % what)
            else:
                for s in pay.get(key, []):
                    hit = Tree.find_value(root, Keyed((k, s)), compare=lambda a, b: a[1] == b[1], **kw)
                    need(hit is not None and hit.data == (k, s), "%s: find_value() does not find a value that is there" % what)
                hit = Tree.find_value(root, Keyed((k, -1)), compare=lambda a, b: a[1] == b[1], **kw)
                need(hit is None, "%s: find_value() finds a value that is not there" % what)
    return {"nontrivial": max_n >= 4 and dels >= 1,
            "labels": ["duplicates" if dup else "distinct", "size=%d+" % (max_n // 8 * 8), "deletes=%d+" % (dels // 4 * 4),
                       "sign=%d" % sign, "hits=%d+" % (seen // 10 * 10)]}


# --- leaves ---------------------------------------------------------------------------------------------------------

@st.composite
def leaf_histories(draw):
    shapes = draw(st.sampled_from([[2], [2, 3, 4]]))
    where = draw(st.sampled_from(["any", "any", "first", "last", "front"]))
    op = st.tuples(st.sampled_from(["s", "s", "s", "s", "r", "n"]), st.integers(0, 200), st.sampled_from(shapes)).map(list)
    ops = draw(st.lists(op, min_size=draw(st.sampled_from([0, 8, 16])), max_size=30))
    if draw(st.booleans()):
        ops = [["s", draw(st.integers(0, 200)), draw(st.sampled_from(shapes))] for _ in range(draw(st.integers(1, 25)))] + ops
    ops += draw(st.lists(st.tuples(st.sampled_from("rrn"), st.integers(0, 200), st.just(2)).map(list), max_size=25))
    return {"ops": ops, "where": where, "via": draw(st.sampled_from(["sub", "sub", "leaf"]))}


def check_leaves(case):
    from foronoi.tree.tree import Tree
    Node, _ = classes()
    count = [0]

    def leaf():
        count[0] += 1
        return Node(count[0])

    def inner(a, b):
        nd = Node("inner")
        nd.left, nd.right = a, b
        return nd
    first = leaf()
    root = first
    model = [first]
    most = 1
    removed = 0
    strict = True
    for n, (op, pos, k) in enumerate(case["ops"]):
        what = "after %d operations on the leaves" % (n + 1)
        m = len(model)
        i = {"any": pos % m, "first": 0, "last": m - 1, "front": pos % min(m, 3)}[case["where"]]
        old = model[i]
        if op == "s":
            if m > 60:
                continue
            if k == 2:
                new = [leaf(), leaf()]
                rep = inner(*new)
            else:
                strict = False
                new = [leaf(), leaf(), leaf()]
                rep = inner(new[0], inner(new[1], new[2])) if k == 3 else inner(inner(new[0], new[1]), new[2])
            root = old.replace_leaf(rep, root)
            check_root(root, rep, what)
            structure(root, 8 * m + 60, False, what + " (before rebalancing)")
            # everything below the starting point has to be balanced, so start at a leaf or the replaced node
            root = Tree.balance_and_propagate(rep if case["via"] == "sub" else new[0])
            model[i:i + 1] = new
        else:
            if m == 1:
                if op == "n":
                    need(old.replace_leaf(None, root) is None, "%s: removing the only leaf does not leave an empty tree" % what)
                continue
            removed += 1
            parent = old.parent
            sibling = parent.right if old.is_left_child() else parent.left
            if op == "n":
                # leave a hole first
                root = old.replace_leaf(None, root)
                check_root(root, parent, what)
                got = structure(root, 8 * m + 60, False, what + " (with a hole)")
                need(len(got) == 2 * m - 2 and old not in got, "%s: replacing a leaf by nothing does not remove it" % what)
                if sibling.is_leaf() and pos % 2:
                    root = sibling.replace_leaf(None, root)
                    check_root(root, parent, what)
                    got = structure(root, 8 * m + 60, False, what + " (with two holes)")
                    need(len(got) == 2 * m - 3 and parent.is_leaf(), "%s: replacing both leaves does not leave a leaf" % what)
            root = parent.replace_leaf(sibling, root)
            check_root(root, sibling, what)
            structure(root, 8 * m + 60, False, what + " (before rebalancing)")
            root = Tree.balance_and_propagate(sibling)
            del model[i]
        most = max(most, len(model))
        nodes = structure(root, 8 * m + 60, strict, what)
        got = [nd for nd in nodes if nd.left is None and nd.right is None]
        need(len(got) == len(model) and all(a is b for a, b in zip(got, model)),
             lambda: "%s the leaves are %s, should be %s" % (what, [nd.data for nd in got], [nd.data for nd in model]))
        need(all(nd.left is not None and nd.right is not None for nd in nodes if nd.data == "inner"),
             "%s: an internal node lost a child" % what)
        lv = Tree.get_leaves(root)
        need(len(lv) == len(model) and all(a is b for a, b in zip(lv, model)), "%s: get_leaves() is wrong" % what)
        for j, nd in enumerate(model):
            need(nd.predecessor is (model[j - 1] if j else None), "%s: predecessor of a leaf is wrong" % what)
            need(nd.successor is (model[j + 1] if j + 1 < len(model) else None), "%s: successor of a leaf is wrong" % what)
        need(root.minimum() is model[0] and root.maximum() is model[-1], "%s: minimum() or maximum() is wrong" % what)
    # give the internal nodes thresholds and look leaves up by key
    nodes = [nd for nd, _ in nodes_in_order(root, 500)]
    for j, nd in enumerate(nodes):
        if nd.data == "inner":
            nd.data = 10 * j
    inner_keys = [nd.data for nd in nodes if not nd.is_leaf()]
    for j in range(len(inner_keys) + 1):
        lo = inner_keys[j - 1] if j else -10
        hi = inner_keys[j] if j < len(inner_keys) else (inner_keys[-1] if inner_keys else 0) + 10
        for key in (lo + 1, hi - 1, hi):
            if j == len(inner_keys) and key == hi:
                continue
            hit = Tree.find_leaf_node(root, key)
            need(hit is model[j], lambda: "find_leaf_node(%r) with thresholds %s gives leaf %r, should give number %d" % (
                key, inner_keys, hit and hit.data, j))
    return {"nontrivial": most >= 5 and removed >= 1, "labels": ["leaves=%d+" % (most // 8 * 8), case["where"],
                                                                  "two" if strict else "two or three",
                                                                  "removed=%d+" % (removed // 5 * 5)]}


def check_root(root, rep, what):
    top = rep
    for _ in range(500):
        if top.parent is None:
            break
        top = top.parent
    else:
        fail("%s: following parents does not end" % what)
    need(top is root, "%s: replace_leaf() does not return the root of the updated tree" % what)


LEGS = [
    Leg("keys", key_histories(), check_keys, 4000, 80000, "at least four keys at some time and one successful deletion"),
    Leg("leaves", leaf_histories(), check_leaves, 4000, 80000, "at least five leaves at some time and one removal"),
]
