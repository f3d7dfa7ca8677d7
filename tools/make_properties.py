"""Writes /verif/properties.jsonl (kept here because JSON lines are hard to edit by hand)."""
import json
import os

DOMAIN = ("all finite sets of distinct sites (given as pairs of int, float, Decimal or numpy numbers) inside or on the "
          "boundary of any convex bounding polygon of non-zero area, including equal coordinates, collinear and "
          "cocircular sites, any offset and any scale")
TESTS = ("The 23 unit tests compare a handful of fixed point sets (mostly cell areas rounded to two digits); ")
R = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    R.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {
                  "files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe),
                  "hook_needed": None}})


ALG, POL = "foronoi/algorithm.py", "foronoi/graph/polygon.py"
PT, HE, ALGB = "foronoi/graph/point.py", "foronoi/graph/half_edge.py", "foronoi/graph/algebra.py"
CE, BP = "foronoi/events/circle_event.py", "foronoi/nodes/breakpoint.py"

p("C01", "Every cell is exactly its site's nearest-site region inside the polygon",
  "After a diagram is created, the corners of each site's cell, read by following the cell's border half-edges from the "
  "site, are exactly the corners of the set of points of the bounding polygon that are at least as close to that site as "
  "to every other site, up to rounding error. Every site has such a cell, for every valid input, and the construction "
  "never fails or loops.",
  ["inputs"], DOMAIN,
  TESTS + "a wrong cell on any other arrangement (ties between events, edges through polygon corners, vertices on the "
  "polygon, far-away unbounded edges) goes unnoticed.",
  [ALG, POL, CE, BP, ALGB],
  [("site and circle event handling", ALG + ": handle_site_event, handle_circle_event"),
   ("convergence test of a circle event", ALG + ": _check_circles; " + ALGB + ": check_clockwise"),
   ("clipping", POL + ": finish_edges, finish_polygon")],
  observe=["Point.borders()", "Point.vertices()"])

p("C02", "Edges are exactly the borders between neighbouring cells plus the outline",
  "The diagram's edge list contains, once each, one edge for every pair of sites whose regions share a border of non-zero "
  "length, running along exactly that border with the two sites on its two half-edges, and edges that cover the outline "
  "of the polygon exactly once, each with the site whose region touches it on the inside and no site on the outside. It "
  "contains nothing else.",
  ["inputs"], DOMAIN,
  TESTS + "none checks which sites an edge separates, or that no edge is missing, duplicated or superfluous.",
  [ALG, POL, HE],
  [("edges traced by breakpoints", ALG + ": handle_site_event, handle_circle_event"),
   ("outline edges", POL + ": finish_polygon"), ("removal of outside edges", POL + ": finish_edges")],
  observe=["Voronoi.edges", "HalfEdge.incident_point", "HalfEdge.twin"])

p("C03", "Half-edges form one consistent structure with closed clockwise cells",
  "In a finished diagram every half-edge's twin's twin is itself, its target is its twin's start, the next half-edge "
  "starts where it ends and points back to it as its previous one, and all half-edges of one cell form a single closed "
  "clockwise loop belonging to that cell's site, which contains the site's first edge. Every edge of the diagram belongs "
  "to these loops, and every vertex lists exactly the half-edges that start in it.",
  ["inputs"], DOMAIN,
  TESTS + "none walks the pointers; a single wrong next, previous, twin or connected-edge entry is invisible in areas.",
  [ALG, POL, HE, PT],
  [("pointer wiring at circle events", ALG + ": handle_circle_event"), ("wiring along the outline", POL + ": finish_polygon"),
   ("unlinking", HE + ": delete")],
  observe=["HalfEdge.twin/next/prev/origin/target", "Vertex.connected_edges", "Point.first_edge"])

p("C04", "The vertex list is exactly the set of corners of the clipped diagram",
  "The diagram's vertices are exactly the points of the polygon where three or more regions meet, where a border between "
  "regions meets the outline, and the polygon's own corners: each present once, none missing, none outside the polygon. "
  "Every vertex is the start of an edge and every edge starts and ends in a listed vertex.",
  ["inputs"], DOMAIN + " (with removal of zero-length edges on, the default)",
  "test_vertices_correct compares one diagram; vertices left over from clipped edges, duplicates from cocircular sites "
  "and vertices exactly on the outline depend on the input.",
  [ALG, POL], [("vertex creation", ALG + ": handle_circle_event"), ("vertex filtering", POL + ": finish_polygon"),
               ("merging", ALG + ": clean_up_zero_length_edges")],
  observe=["Voronoi.vertices"])

p("C05", "Cell areas are exact, add up to the polygon's area, and round as asked",
  "Each site's area equals the area of its nearest-site region, all areas are positive and their sum is the area of the "
  "bounding polygon; area(digits) is that area rounded to that number of digits. A site's list of vertices are the "
  "starts of its borders in the same order, each once.",
  ["inputs"], DOMAIN + "; any number of digits",
  TESTS + "they cannot show that no area is lost or counted twice on other inputs.",
  [PT, ALG, POL], [("shoelace formula", PT + ": area, _shoelace"), ("border walk", PT + ": borders, vertices")],
  observe=["Point.area(digits)", "Point.vertices()", "Point.borders()"])

p("C06", "Zero-length edge removal merges coinciding vertices and changes nothing else",
  "With removal of zero-length edges on, no edge has zero length and no two vertices coincide; with it off, the cells, "
  "areas and adjacencies are the same once zero-length edges are ignored, and every extra edge has zero length and lies "
  "at a corner of the diagram. Both settings give the same geometry for every input.",
  ["inputs", "configurations"], DOMAIN + "; both settings",
  "One test looks at one small diagram; degenerate meeting points with many sites, and chains of several zero-length "
  "edges in one place, only occur for special inputs.",
  [ALG, HE], [("clean up", ALG + ": clean_up_zero_length_edges"), ("unlinking", HE + ": delete")],
  observe=["Voronoi(remove_zero_length_edges=...)", "Voronoi.edges", "Voronoi.vertices"])

p("C07", "The result depends only on the set of sites and the polygon, not how given",
  "Permuting the sites, listing the polygon's corners in any order, or giving the same numbers as int, float, Decimal or "
  "numpy values produces the same diagram (same cells per site, same adjacencies). The diagram's sites stay in the order "
  "in which they were given, with exactly the given coordinates, and neither the given list nor its entries are changed.",
  ["inputs"], DOMAIN + "; all permutations, corner orders and number types",
  "Tests pass each point set in one order; ties in the event queue are resolved by order, so order dependence shows only "
  "for some permutations.",
  [ALG, POL, "foronoi/events/event.py", "foronoi/graph/coordinate.py"],
  [("event order", "foronoi/events/event.py: Event.__lt__"), ("corner order", POL + ": _order_points"),
   ("exact numbers", "foronoi/graph/coordinate.py")],
  observe=["Voronoi.sites", "cells"])

p("C08", "Moving, scaling, mirroring or turning the input does the same to the diagram",
  "Translating, uniformly scaling, mirroring or turning by 90 degrees both the polygon and the sites gives the "
  "transformed diagram: same adjacencies, transformed corners, areas multiplied by the square of the scale. This holds "
  "for small and for large inputs (hundreds of sites).",
  ["inputs"], DOMAIN + "; all such transformations, including ones that move the origin far away or inside the polygon",
  "All test inputs lie in a few positive ranges; dependence on the sign or size of coordinates or on the sweep "
  "direction cannot show.",
  [ALG, POL, BP, CE, ALGB], [("sweep", ALG), ("clipping", POL + ": _finish_edge"), ("intersection formulas", BP)],
  observe=["cells", "areas"])

p("C09", "Adding a site only takes area from other cells, exactly what the new cell gets",
  "When one site is added to a set, every other cell of the new diagram is contained in its old cell, the new cell's "
  "area equals the sum of what the others lost, and cells that remain but do not border the new cell are unchanged. Removing it "
  "again restores the old diagram.",
  ["inputs", "histories"], DOMAIN + "; any order of adding and removing sites",
  "It relates two diagrams of different inputs; no test compares diagrams with each other.",
  [ALG, POL], [("sweep", ALG + ": handle_site_event, handle_circle_event"), ("clipping", POL)],
  observe=["cells", "areas"])

p("C10", "Shrinking the bounding polygon only cuts the cells",
  "For a convex polygon contained in another convex polygon, and the same sites, the cells in the smaller "
  "polygon are exactly the cells in the larger polygon cut to the smaller one; in particular all vertices and edges lie "
  "inside or on the polygon, and borders that do not reach its outline are the same in both.",
  ["inputs", "configurations"], "all nested pairs of convex polygons with sites inside or outside of them",
  "Tests use one polygon per point set; how far unbounded edges are followed before clipping depends on the "
  "polygon's size and position.",
  [POL, ALGB], [("following unbounded edges", POL + ": _finish_edge"), ("intersection with the outline",
                POL + ": _get_intersection_point; " + ALGB + ": line_ray_intersection_point")],
  observe=["cells for both polygons"])

p("C11", "The sweep handles every site once, top to bottom, and every true circle event",
  "Events are handled in order of decreasing y (then increasing x) and the sweep line never moves up; every site is "
  "handled exactly once and named by its position in that order; and every handled circle event has a centre "
  "equidistant from its three sites with no site inside its circle. Every point where three or more regions of the "
  "unbounded diagram meet is the centre of a handled circle event, and the number of events stays linear.",
  ["inputs", "histories"], DOMAIN + "; every step of every construction",
  "Tests look at final results only; the order and validity of events is a property of the whole run.",
  [ALG, "foronoi/events/event.py", "foronoi/events/site_event.py", CE],
  [("priority", "foronoi/events/event.py: Event.__lt__"), ("false alarms", CE + ": remove; " + ALG),
   ("naming", ALG + ": create_diagram")],
  state=[("event", "the event handled last", ALG), ("sweep_line", "y of the sweep line", ALG)],
  observe=["STEP_FINISHED observers", "Voronoi.event", "Voronoi.sweep_line", "Point.name"])

p("C12", "After every step the beach line is the lower envelope of the handled sites",
  "After each event, the leaves of the status tree read from left to right are exactly the sequence of parabola arcs of "
  "the lower envelope of the sites handled so far at the current sweep line (up to arcs of zero width), the internal "
  "nodes between them are the breakpoints of the adjacent pairs in the same order, and the parabolas of the diagram's "
  "arcs have that envelope as their minimum.",
  ["inputs", "histories"], DOMAIN + "; every step of every construction",
  "No test inspects intermediate states of a construction except a few hand-made trees.",
  [ALG, "foronoi/tree/tree.py", "foronoi/tree/node.py", BP, "foronoi/nodes/arc.py"],
  [("leaf replacement", ALG + ": handle_site_event; foronoi/tree/node.py: replace_leaf"),
   ("search for the arc above a site", "foronoi/tree/tree.py: find_leaf_node"),
   ("arc removal", ALG + ": _update_breakpoints")],
  state=[("status_tree", "beach line as a binary search tree", ALG), ("arcs", "arcs on the beach line", ALG)],
  observe=["STEP_FINISHED observers", "Voronoi.status_tree", "Voronoi.arcs"])

p("C13", "The status tree stays a well-formed balanced tree at every size",
  "After every event the status tree is a proper binary tree: every child points to its parent, the root has none, every "
  "internal node has two children, stored heights are true heights, and the depth stays logarithmic in the number of "
  "sites. As a consequence thousands of sites, in any arrangement including rows, columns and diagonals, never "
  "exhaust the recursion limit.",
  ["inputs", "histories"], "all site sets up to thousands of sites, sorted and degenerate arrangements included; every step",
  "Tests use at most a few dozen sites and never check the shape of the tree during a sweep.",
  ["foronoi/tree/tree.py", "foronoi/tree/node.py", ALG],
  [("rotations", "foronoi/tree/tree.py: balance, rotate_left, rotate_right, balance_and_propagate"),
   ("heights", "foronoi/tree/node.py: update_heights")],
  state=[("status_tree", "root of the tree", ALG)], observe=["STEP_FINISHED observers", "Voronoi.status_tree"])

p("C14", "The search tree behaves like a sorted collection under any operation history",
  "Under any sequence of insertions, deletions, lookups, leaf replacements and rebalancing, the tree contains exactly the "
  "keys a sorted list would, in the same order; lookups find a key exactly when it is present, minimum, maximum, "
  "predecessor and successor of leaves agree with the sorted list, the text of a tree shows every node at its depth, and "
  "every subtree stays balanced within one level with correct stored heights and parent links.",
  ["histories"], "all operation sequences over keys, with and without custom key functions",
  "Tests run a few fixed sequences of at most ten insertions and never delete a node with two children.",
  ["foronoi/tree/tree.py", "foronoi/tree/node.py"],
  [("insert/delete/find", "foronoi/tree/tree.py"), ("neighbours", "foronoi/tree/node.py: predecessor, successor")],
  observe=["Tree.insert/delete/find/find_value/find_leaf_node/get_leaves", "Node.*"])

p("C15", "Observers get every message once, in order, with a consistent subject",
  "Every attached observer receives, with the diagram as sender, one STEP_FINISHED message per handled event, then "
  "exactly one SWEEP_FINISHED, then exactly one VORONOI_FINISHED, interleaved with debug messages carrying text "
  "(including those from the bounding polygon), at least one of which precedes each of these messages; detached observers receive nothing, and observers receive messages in "
  "attachment order. At each message the visible state is that of the completed phase.",
  ["inputs", "histories", "configurations"], "all inputs and all attach/detach histories, also with a reused polygon",
  "One test counts messages of one observer on one input.",
  ["foronoi/observers/subject.py", "foronoi/observers/message.py", "foronoi/observers/debug_observer.py", ALG],
  [("notification", "foronoi/observers/subject.py"), ("message points", ALG + ": create_diagram")],
  observe=["Observer.update"])

p("C16", "Watching a construction never changes it, and observers honour their options",
  "Attaching any combination of the library's observers, with any options, changes nothing in the resulting diagram, in "
  "the shared presets, or in other observers. The tree and diagram observers call back exactly for the steps and results "
  "their options select (without a callback they show or print the result themselves), count and record those messages, "
  "draw with the settings given to that observer only, name the event in the title, and show the tree that the diagram has "
  "at that moment, each node labelled with its site or sites. Options that are not given have the documented defaults.",
  ["configurations", "inputs", "histories"], "all observer combinations and options on all inputs, several diagrams in a row",
  "Tests use one observer with default options; leaks between observers need two differently configured ones.",
  ["foronoi/observers/voronoi_observer.py", "foronoi/observers/tree_observer.py", "foronoi/visualization/visualizer.py"],
  [("option handling", "foronoi/observers/voronoi_observer.py: update; foronoi/observers/tree_observer.py: update")],
  observe=["observer callbacks", "n_messages", "messages", "Presets"])

p("C17", "Pictures show exactly the diagram's geometry",
  "A plot contains one marker per site and vertex at its coordinates, for every edge a line between its two ends, site "
  "labels P# matching the sites' names and edge labels naming the two cells, the outline of the bounding polygon, the "
  "sweep line at its height, the beach line as the lower envelope, each arc labelled with its own site, and for a circle "
  "event its circle, triangle and sites; borders can be drawn with pointers from their middle to their own site and with "
  "arrows along the outgoing edges. Explicitly passed elements are drawn instead of the diagram's, options that are off "
  "add nothing, and the axes cover the polygon plus the canvas offset.",
  ["inputs", "configurations"], "all diagrams, all combinations of plot options, during and after construction",
  "No test looks at any plot.",
  ["foronoi/visualization/visualizer.py", "foronoi/nodes/arc.py"],
  [("plotting", "foronoi/visualization/visualizer.py: plot_*")], observe=["matplotlib axes content"])

p("C18", "A bounding polygon knows its corners, extent, order and inside",
  "For convex corners given in any order, a polygon reports them as one closed tour in clockwise order with exactly the "
  "given coordinates, the exact minimum and maximum of x and y, and tells for every point not on the outline whether it "
  "is inside. A bounding box is the polygon of its four corners.",
  ["inputs"], "all convex polygons, all corner orders, all points",
  "Tests check a few points of one polygon.",
  [POL, "foronoi/graph/bounding_box.py"],
  [("ordering", POL + ": _order_points"), ("even-odd test", POL + ": inside"), ("extent", POL + ": __init__")],
  observe=["Polygon.points/get_coordinates/inside/min_x/max_x/min_y/max_y/center"])

p("C19", "Coordinates keep the exact numbers they are given",
  "A coordinate stores the decimal value a number prints as, however it is given or set, returns it exactly as decimal "
  "and as the nearest float, and subtraction is decimal subtraction (to 28 digits); points and vertices behave the same and keep "
  "separate, independent neighbour lists. Missing coordinates stay missing.",
  ["inputs", "histories"], "all finite ints, floats, Decimals and numpy numbers; all sequences of setting x, y, xd, yd",
  "Tests never read coordinates back in another representation.",
  ["foronoi/graph/coordinate.py", PT, "foronoi/graph/vertex.py"],
  [("conversion", "foronoi/graph/coordinate.py: _to_dec")], observe=["Coordinate.x/y/xd/yd/xy"])

p("C20", "Breakpoints, arcs, circles and event order follow their definitions",
  "For any two sites and a sweep line below or level with them, the reported breakpoint is equidistant from both sites "
  "and the sweep line, and lies where the left site's arc turns into the right site's on the lower envelope; an arc's "
  "plotted value is equidistant from site and sweep line; the circle through three sites exists exactly if they are not "
  "collinear (up to rounding at 24 digits) and passes through them; the turn direction of three points around a centre and the direction angle of a point are reported correctly; a ray "
  "meets a segment in the reported point exactly if they meet at all; and events are totally ordered by decreasing y, "
  "then increasing x.",
  ["inputs"], "all site pairs and triples, sweep-line positions and event sets, degenerate ones included",
  "Tests evaluate a handful of fixed triples and breakpoints.",
  [BP, "foronoi/nodes/arc.py", CE, ALGB, "foronoi/events/event.py"],
  [("formulas", BP + ": get_intersection; foronoi/nodes/arc.py: get_plot; " + CE + ": create_circle"),
   ("orientation", ALGB + ": check_clockwise")],
  observe=["Breakpoint.get_intersection", "Arc.get_plot", "CircleEvent.create_circle", "event comparison"])

p("C21", "Diagrams are independent: nothing carries over from one to the next",
  "Whatever was created before, in the same process, with the same or another diagram object, the same or another "
  "bounding polygon, and whatever was done with earlier results (plotting, areas, observers), creating a diagram gives "
  "the same result as in a fresh process. Earlier results of other diagram objects are not changed by later ones. The "
  "same holds for diagrams with polygons of their own that are created at the same time: one inside an observer of another, "
  "or in several threads, however these alternate.",
  ["histories"], "all sequences of creating, recreating, observing and plotting diagrams with shared polygons and objects; "
  "nested and interleaved constructions at the granularity of messages",
  "Every test creates one diagram with fresh objects.",
  [ALG, POL, "foronoi/observers/subject.py"],
  [("initial state", ALG + ": __init__, initialize"), ("polygon state", POL + ": finish_edges")],
  observe=["all results"])

p("C22", "Half-edge operations keep rings, twins and vertex lists consistent",
  "For any history of linking, twin assignment and deletion of half-edges on rings, linking sets both next and previous, "
  "assigning a twin makes both half-edges each other's twin, the target is always the twin's start, and deleting a "
  "half-edge removes exactly it from its ring, from its start vertex and as first edge of its site (which then gets the "
  "following half-edge, if there is one left). Borders of a site are the half-edges of its ring in order, starting with its first edge.",
  ["histories"], "all operation sequences on rings and open chains of half-edges",
  "Tests never call these operations directly.",
  [HE, "foronoi/graph/vertex.py", PT], [("operations", HE + ": set_next, twin, delete"), ("walk", PT + ": borders")],
  observe=["HalfEdge.next/prev/twin/target/origin", "Point.borders()", "Vertex.connected_edges"])

p("C23", "Outside or repeated sites and repeated corners are handled like any others",
  "Sites may also lie outside the bounding polygon, one location may be given several times, and a corner of the polygon may "
  "be given several times (as in a closed ring). The diagram is then that of the different locations, cut to the polygon of "
  "the different corners: cells, edges, vertices, loops and areas are as for any other input. Of the sites at one location "
  "exactly one has the cell; a site without a region of its own in the polygon has no border, no vertices and area zero. Every "
  "given site is still listed in its place and named. The construction never fails or loops for such inputs.",
  ["inputs"], "all finite lists of sites anywhere in the plane (up to 1e6 times the polygon's size away), with repetitions, and "
  "all lists of corners of a convex polygon, with repetitions", TESTS + "none of them has a site outside, a repeated site or a "
  "repeated corner.",
  [ALG, POL, HE, PT], [("repeated sites", ALG + ": handle_site_event"), ("clipping", POL + ": finish_edges, finish_polygon"),
                       ("removal of edges outside", HE + ": delete"), ("repeated corners", POL + ": __init__")],
  observe=["Voronoi.sites/edges/vertices", "Point.first_edge/borders()/vertices()/area()", "Polygon.points"])

p("C24", "A bounding circle cuts the diagram at the circle, cells closed by chords",
  "With a bounding circle instead of a polygon, a diagram can be created as well. Its edges are exactly the parts of the "
  "borders between neighbouring nearest-site regions that lie in the circle, each once, and the straight chords between "
  "neighbouring places where borders cross the circle, which close the cells (arcs are not represented, so areas are not "
  "supported). Cells, vertices, half-edges and loops are consistent as with a polygon; a site whose region has no border "
  "in the circle has no border half-edges. The circle's inside test tells points strictly inside from others, the circle "
  "can be used again for another diagram, and it is drawn with its centre and radius.",
  ["inputs"], "all circles and all finite sets of distinct sites inside or outside of the circle, in any number type, offset "
  "and scale, including borders that meet on the circle or touch it",
  TESTS + "none of them has a bounding circle.",
  ["foronoi/contrib/bounding_circle.py", POL, ALG],
  [("cutting", "foronoi/contrib/bounding_circle.py: cut_line, cut_circle, get_line, on_line"),
   ("clipping and closing", POL + ": finish_edges, finish_polygon")],
  observe=["Voronoi.edges/vertices", "Point.borders()", "BoundingCircle.inside()", "Visualizer.plot_polygon()"])

p("C25", "While the sweep runs, the half-built diagram is consistent and final so far",
  "After every handled event, the edges are those between handled sites, each listed once as two half-edges that are each "
  "other's twin. Where a half-edge's start is known it is a listed vertex that is equally far from the sites on both sides and "
  "from which no site (handled or not) is nearer, with exactly its three half-edges as connected edges and next and prev linked "
  "around each cell; once there, a vertex stays as it is. Where it is open, its start is the breakpoint of its two sites on the beach "
  "line (one half-edge per breakpoint), get_origin() gives None without a sweep line and with it the point at equal distance from both sites and the sweep line. Every handled site (but a lone "
  "one) has a first edge of its own, borders() and vertices() give its known borders and corners in order, and sites below the sweep line have none. "
  "When the sweep has finished, the edges with a length are exactly the borders of the unbounded diagram, with open ends where these are infinite.",
  ["inputs", "histories"], DOMAIN + "; also outside of the polygon and repeated; every step of every construction",
  "Tests look at finished, clipped diagrams only; observers and animations show the half-built ones.",
  [ALG, HE, PT, BP],
  [("half-edge records and their links", ALG + ": handle_site_event, handle_circle_event"),
   ("open ends", HE + ": get_origin; " + BP + ": get_intersection")],
  state=[("edges", "half-edges found so far", ALG), ("vertices", "vertices found so far", ALG)],
  observe=["STEP_FINISHED and SWEEP_FINISHED observers", "Voronoi.edges/vertices/sites"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for r in R:
            f.write(json.dumps(r) + "\n")
    print(len(R), "properties")
