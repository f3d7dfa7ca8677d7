"""What a matplotlib figure shows, as plain values."""
import warnings

import numpy as np


def _num(v):
    v = float(v)
    return "nan" if v != v else v


def describe(fig):
    """{kind: list of plain tuples} of everything drawn in the figure's only axes."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.colors import to_hex
    from matplotlib.patches import Circle, Polygon
    from matplotlib.text import Annotation
    axes = fig.get_axes()
    if len(axes) != 1:
        return {"axes": len(axes)}
    ax = axes[0]
    out = {"axes": 1, "scatter": [], "line": [], "polygon": [], "circle": [], "arrow": [], "text": [], "other": [],
           "xlim": tuple(_num(v) for v in ax.get_xlim()), "ylim": tuple(_num(v) for v in ax.get_ylim()),
           "size": tuple(_num(v) for v in fig.get_size_inches())}
    for c in ax.collections:
        if isinstance(c, PathCollection):
            cols = [to_hex(x) for x in c.get_facecolor()]
            pts = [(_num(x), _num(y)) for x, y in np.asarray(c.get_offsets(), dtype=float)]
            out["scatter"].append((pts, cols, c.get_zorder()))
        elif isinstance(c, LineCollection):
            cols = [to_hex(x) for x in c.get_color()] or ["#000000"]
            for k, seg in enumerate(c.get_segments()):
                out["line"].append(([_num(x) for x, _ in seg], [_num(y) for _, y in seg], cols[k % len(cols)], "-"))
        else:
            out["other"].append(type(c).__name__)
    for ln in ax.lines:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            xs, ys = np.asarray(ln.get_xdata(orig=True)), np.asarray(ln.get_ydata(orig=True))
        xs, ys = [_num(x) for x in xs], [_num(y) for y in ys]
        if ln.get_linestyle() in ("None", " ", "") and ln.get_marker() not in ("None", " ", "", None):
            out["scatter"].append((list(zip(xs, ys)), [to_hex(ln.get_markerfacecolor())], ln.get_zorder()))
        else:
            out["line"].append((xs, ys, to_hex(ln.get_color()), ln.get_linestyle()))
    for p in ax.patches:
        if isinstance(p, Circle):
            out["circle"].append((_num(p.get_center()[0]), _num(p.get_center()[1]), _num(p.width) / 2,
                                  to_hex(p.get_edgecolor()), bool(p.get_fill())))
        elif isinstance(p, Polygon):
            out["polygon"].append(([(_num(x), _num(y)) for x, y in p.get_xy()], to_hex(p.get_edgecolor()),
                                   bool(p.get_fill())))
        else:
            out["other"].append(type(p).__name__)
    for t in ax.texts:
        if isinstance(t, Annotation) and t.arrow_patch is not None:
            out["arrow"].append((_num(t.xyann[0]), _num(t.xyann[1]), _num(t.xy[0]), _num(t.xy[1]), t.get_text(),
                                 to_hex(t.arrow_patch.get_edgecolor())))
        elif isinstance(t, Annotation):
            out["text"].append((t.get_text(), _num(t.xy[0]), _num(t.xy[1])))
        else:
            x, y = t.get_position()
            out["text"].append((t.get_text(), _num(x), _num(y)))
    for k in ("artists", "images", "tables"):
        out["other"] += [type(a).__name__ for a in getattr(ax, k)]
    return out


def canonical(d):
    """The description without the order in which things were drawn."""
    return {k: sorted(map(repr, v)) if isinstance(v, list) else v for k, v in d.items()}


def difference(a, b):
    """First kind in which two descriptions differ, or None."""
    ca, cb = canonical(a), canonical(b)
    for k in sorted(set(ca) | set(cb)):
        if ca.get(k) != cb.get(k):
            return "%s: %s instead of %s" % (k, str(ca.get(k))[:300], str(cb.get(k))[:300])
    return None
