import json
P=[]
def p(id,title,statement,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":["inputs"],"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Intersections reports exactly the pairs that meet, each once",
 "For every collection of line segments and points, collecting it into Intersections and iterating yields every pair of inputs that have a point in common exactly once, and no other pair. The LineIntersection given with a pair is right: a SinglePoint lies on both inputs and is_proper exactly if it is an end point of neither; Collinear is given exactly for pairs sharing more than a point and is the whole common part.",
 "All finite sets of segments and points, with any touching, crossing, overlapping, vertical, degenerate or identical members, in any input order and direction.",
 "The unit tests compare counts on a handful of fixed inputs and a few random f64 sets in general position; degenerate contacts (end point on a segment, overlaps with different extents, several inputs through a point) need exact coincidences that random inputs do not produce.",
 ["src/crossings.rs","src/crossings/sweep.rs","src/line_or_point.rs","src/events.rs","src/active.rs"],
 [("Sweep::handle_event","src/crossings/sweep.rs: events, splitting, overlap chains"),("Intersections::step/compute","src/crossings.rs: pairing of the segments at a point"),("Segment::adjust_for_intersection","src/crossings/sweep.rs")],
 ["items of Intersections"],
 [("first_segment","whether a piece is the first of its input; decides which piece reports a pair","src/crossings/sweep.rs Segment")])
p("C02","CrossingsIter yields every end point and crossing, in sweep order",
 "For every collection of line segments and points, CrossingsIter yields exactly the end points of the inputs and the points at which two of them cross or touch, each of them once, in strictly increasing lexicographic order (x, then y), and then ends.",
 "All finite sets of segments and points, in any order and direction.",
 "Tests count points for fixed examples; omission, repetition or misordering needs particular degenerate configurations (vertical segments, shared end points, concurrent crossings).",
 ["src/crossings.rs","src/crossings/sweep.rs","src/events.rs","src/line_or_point.rs"],
 [("Event/SweepPoint order","src/events.rs"),("Sweep::handle_event","src/crossings/sweep.rs"),("CrossingsIter::next","src/crossings.rs")],
 ["items of CrossingsIter"])
p("C03","The segments reported at a crossing are exactly the pieces that meet there",
 "At each point that CrossingsIter yields, intersections() holds, for each input that contains the point, exactly one piece that ends there (unless the input starts there) and one that starts there (unless it ends there), and nothing of other inputs. Each piece is part of its input, a piece that ends at the point starts at the previous crossing on that input, at_left and first_segment say what they are documented to say, and has_overlap is set only if the next entry overlaps the piece.",
 "All finite sets of segments and points, and every point yielded for them.",
 "No test looks at the pieces reported at points other than a few general-position ones; the batches differ exactly in degenerate configurations.",
 ["src/crossings.rs","src/crossings/sweep.rs","src/active.rs"],
 [("CrossingsIter::next / Crossing::from_segment","src/crossings.rs, src/crossings/sweep.rs"),("Sweep::handle_event, chain_overlap, adjust_one_segment","src/crossings/sweep.rs")],
 ["CrossingsIter::intersections()"],
 [("overlapping / is_overlapping","chain of segments that share the piece","src/crossings/sweep.rs Segment")])
p("C04","LineOrPoint and SweepPoint: normal form and sweep order",
 "A LineOrPoint built from a Line keeps its two end points, puts the lexicographically smaller one first whatever the direction of the input, and is a point exactly if they are equal; SweepPoint is totally ordered by x, then y. Two lines whose left ends both precede both right ends are ordered as they lie along the sweep (by the side on which the later left end lies of the other line, then by the right end), comparison is antisymmetric, transitive among lines that do not cross, and a point compares to a line as an infinitesimal vertical segment.",
 "All pairs and triples of segments and points.",
 "Tests evaluate a handful of comparisons; the order must be right for every relative position or the sweep's search tree is corrupted.",
 ["src/line_or_point.rs","src/events.rs"],
 [("PartialOrd for LineOrPoint","src/line_or_point.rs"),("From<Line> for LineOrPoint","src/line_or_point.rs"),("Ord for SweepPoint","src/events.rs")],
 ["LineOrPoint::from, partial_cmp, ==, line(), second()","SweepPoint cmp"])
p("C05","Intersection of two segments is exact in kind and extent",
 "LineOrPoint::intersect_line and intersect_line_ordered return None exactly for segments (or a segment and a point) without common point; otherwise the result lies on both, is a line exactly if they share more than one point, and is then all they share, with its ends in order.",
 "All pairs of segments, and of a segment and a point, whatever their position and order.",
 "The kind of the result depends on exact coincidences (collinear, end point on segment, parallel), which sampled inputs hardly meet.",
 ["src/line_or_point.rs"],
 [("intersect_line, intersect_line_ordered","src/line_or_point.rs")],
 ["return value"])
p("C06","Boolean operations of polygons give exactly the set-theoretic region",
 "For every two valid polygons, with or without holes, in any orientation of their rings, intersection, union, difference and xor return polygons covering exactly the corresponding region (up to boundary): along every piece of the operands' boundaries the result has that piece as boundary, with the interior on the right side, exactly if the operation's membership changes across it, and its area is the area of that region.",
 "All pairs of valid polygons and all four operations.",
 "Tests compare areas against geo-booleanop fixtures and random general-position input; shared edges, touching vertices and vertices on edges take particular paths in the sweep and in the assembly of rings.",
 ["src/bops.rs","src/bops/op.rs","src/bops/rings.rs","src/bops/laminar.rs","src/crossings/sweep.rs"],
 [("Op::sweep, Region::cross/is_ty","src/bops/op.rs"),("Rings::add_edge, finish","src/bops/rings.rs"),("assemble","src/bops/laminar.rs")],
 ["returned MultiPolygon"],
 [("end_points","open ends of boundary chains by point and direction","src/bops/rings.rs Rings")])
p("C07","Boolean operations of multi-polygons give exactly the set-theoretic region",
 "The same for multi-polygons: intersection, union, difference and xor of two valid multi-polygons (several parts, a part inside the hole of another, an empty operand) cover exactly the corresponding region.",
 "All pairs of valid multi-polygons and all four operations.",
 "Tests use no multi-polygon with nested or touching parts and no empty operand.",
 ["src/bops.rs","src/bops/op.rs","src/bops/rings.rs","src/bops/laminar.rs"],
 [("BooleanOp for MultiPolygon","src/bops.rs"),("Op::add_multi_polygon, sweep","src/bops/op.rs")],
 ["returned MultiPolygon"])
p("C08","Boolean operations return valid polygons",
 "The polygons returned by a boolean operation on valid polygons are well formed: every ring is closed, visits no vertex twice and has area; edges of the result neither cross nor overlap; every hole lies inside the exterior of its own polygon and outside that polygon's other holes.",
 "All pairs of valid polygons and all four operations.",
 "Tests check areas only, never the structure of the rings; invalid structure appears at touching vertices and shared edges.",
 ["src/bops.rs","src/bops/rings.rs","src/bops/laminar.rs","src/bops/op.rs"],
 [("Rings::finish splits rings at repeated vertices","src/bops/rings.rs"),("assemble nests holes","src/bops/laminar.rs")],
 ["returned MultiPolygon"])
p("C09","monotone_chains partitions the polygon into monotone pieces",
 "For every valid polygon whose edges meet only in common end points, two at each vertex (as documented), with any holes and ring directions, monotone_chains returns pieces each bounded by an upper and a lower chain that are strictly increasing in sweep order, share their ends and enclose positive area; the pieces use only vertices of the polygon, do not overlap, and together cover exactly the polygon.",
 "All such polygons with any number of holes.",
 "Tests check two small polygons and random ones by area; split and merge vertices, vertical edges and collinear vertices each take different paths and only particular combinations reach them.",
 ["src/monotone/chains.rs","src/monotone/sweep.rs","src/monotone/segment.rs"],
 [("monotone_chains","src/monotone/chains.rs"),("Sweep::process_event","src/monotone/sweep.rs"),("Helper (merge vertices)","src/monotone/segment.rs")],
 ["returned pieces"],
 [("helper","vertex that a later diagonal starts from","src/monotone/segment.rs")])
p("C10","The scanner cuts a monotone polygon into adjoining trapezoids",
 "Advancing a Scanner (advance_to or advance_upto) to an abscissa yields the trapezoids between the current and the new position: they adjoin without gap or overlap, clipped to the polygon's extent, their four corners lie on the upper and lower chain, no chain vertex is skipped inside one, and curr() is then at the new position. Requests behind the current position, before the polygon or past its end change nothing beyond that.",
 "All monotone polygons, starting positions and sequences of positions.",
 "Tests rasterise a few polygons over a regular grid; vertical edges, coinciding abscissae and requests at vertices or outside the polygon are not among them.",
 ["src/monotone/mono_poly.rs"],
 [("Scanner::advance_to/advance_upto/next","src/monotone/mono_poly.rs"),("MonoPoly::scan_lines","src/monotone/mono_poly.rs")],
 ["yielded Trapz","Scanner::curr()"])
p("C11","cross_area accumulates the exact covered area per cell",
 "Scanner::cross_area adds to every cell of the strip between the scanner's position and the given abscissa exactly the area of the polygon inside the cell, changes nothing else, and leaves the scanner at the new position; successive strips add up.",
 "All monotone polygons, strips and numbers and extents of cells, also cells that the polygon overshoots.",
 "Tests compare against area sums for a few polygons and one grid; clipping below, above and at cell borders takes different branches per trapezoid.",
 ["src/monotone/rasterize.rs","src/monotone/mono_poly.rs"],
 [("Scanner::cross_area","src/monotone/rasterize.rs")],
 ["the array passed in"])
p("C12","The splay tree behaves as a sorted map and set",
 "Every sequence of operations on SplayTree/SplaySet (insert, remove, get, get_mut, index, contains, find_key, next, prev, min, max, len, extend, clear) returns what a sorted map or set would, whatever the keys, and consuming iteration yields the remaining entries in order from either end with an exact size hint.",
 "All histories of operations with all keys.",
 "The tests replay a few fixed histories; errors of rotations and of next/prev on splayed shapes need particular shapes and absent keys between present ones.",
 ["src/splay/tree.rs","src/splay/set.rs","src/splay/node.rs"],
 [("splay, insert, remove, next, prev","src/splay/tree.rs"),("IntoIter","src/splay/tree.rs")],
 ["return values of the operations"])
P[-1]["quantifier"]["over"]=["histories","inputs"]
p("C13","Monotone pieces keep their chains in every view",
 "MonoPoly::new accepts exactly pairs of strictly monotone chains with common ends; top, bot and into_ls_pair return those chains, into_polygon is the closed ring made of them, and bounding_rect is their tight bounding rectangle.",
 "All pairs of chains.",
 "Only areas of into_polygon are tested, on two polygons.",
 ["src/monotone/mono_poly.rs"],
 [("MonoPoly::new, into_polygon, bounding_rect","src/monotone/mono_poly.rs")],
 ["return values"])
p("C14","cross_bounds and cross_ubounds give the exact range of cells",
 "For the strip between the scanner's position and the given abscissa, cross_bounds returns None exactly if the polygon does not meet the grid there; otherwise the lowest and highest cell met, the largest value of the lower and the smallest value of the upper chain; cross_ubounds returns the same range (an empty one if nothing is met). Both leave the scanner at the new position.",
 "All monotone polygons, strips and grids.",
 "Tests check a regular grid over a few polygons; clipping outside the grid and values on cell borders are not met.",
 ["src/monotone/rasterize.rs","src/monotone/mono_poly.rs"],
 [("Scanner::cross_bounds, cross_ubounds","src/monotone/rasterize.rs")],
 ["return values"])
p("C15","The decomposition sweep visits and classifies every vertex",
 "For every valid polygon whose edges meet only in common end points, two at each vertex (as documented), iterating MonotoneSweep yields each vertex exactly once, in lexicographic order, with the right kind: start, end, split, merge or continue, by the positions of its two neighbours and the side of the interior.",
 "All such polygons with any number of holes and ring directions.",
 "Tests print the events of two polygons; the kind depends on the exact position of neighbours, also for vertical edges.",
 ["src/monotone/sweep.rs","src/monotone/segment.rs"],
 [("Sweep::process_event, find_intersection_type","src/monotone/sweep.rs")],
 ["items of MonotoneSweep"])
p("C16","Rasterising a polygon through its monotone pieces gives the exact coverage",
 "For every valid polygon whose edges meet only in common end points, with holes, cutting it with monotone_chains, scanning every piece column by column with scan_lines and cross_area into one array per column, and adding up, gives each cell of the grid exactly the area that it shares with the polygon, also for cells outside the polygon and grids smaller than it.",
 "All such polygons and all grids.",
 "Tests compare sums of areas for a few fixed polygons on one grid; whether the pieces' chains suit the scanner (vertical edges at a piece's ends, several vertices on one abscissa) shows only when both are used together.",
 ["src/monotone/chains.rs","src/monotone/mono_poly.rs","src/monotone/rasterize.rs","src/monotone/sweep.rs"],
 [("monotone_chains","src/monotone/chains.rs"),("Scanner::advance_to, cross_area","src/monotone/mono_poly.rs, src/monotone/rasterize.rs")],
 ["the arrays passed to cross_area"])
p("C17","Results of boolean operations serve as operands",
 "Applying a boolean operation to the result of another one and a further valid polygon, in either order, also if it is one of the first operands again, returns valid polygons covering exactly the corresponding region.",
 "All triples of valid polygons and all pairs of operations.",
 "Tests never feed a result back; results have collinear vertices, touching rings, several parts and edges that coincide with those of the operands.",
 ["src/bops.rs","src/bops/op.rs","src/bops/rings.rs","src/bops/laminar.rs","src/crossings/sweep.rs"],
 [("BooleanOp for MultiPolygon","src/bops.rs"),("Op::add_multi_polygon, sweep","src/bops/op.rs"),("Rings::finish, assemble","src/bops/rings.rs, src/bops/laminar.rs")],
 ["returned MultiPolygon"])
p("C18","Every kind of Crossable is swept alike",
 "CrossingsIter and Intersections yield the same points, pieces and pairs in the same order whether the inputs are plain Lines, values of a custom Crossable type, or references, Box, Rc or Arc (also nested) of these, and whatever size hint the iterator gives that they are collected from; intersections() and intersections_mut() show the same pieces.",
 "All finite sets of segments and points and all kinds of input.",
 "Tests use plain Lines from vectors only.",
 ["src/crossings.rs","src/crossings/sweep.rs"],
 [("Crossable and its blanket implementations","src/crossings.rs"),("Sweep::new, create_segment","src/crossings/sweep.rs")],
 ["items of CrossingsIter and Intersections","intersections()"])
p("C19","Scanning a monotone polygon keeps its guarantees when every operation rounds",
 "With f64 or f32 coordinates, for every monotone polygon whose chains do not cross (however thin), the trapezoids yielded by advance_to and advance_upto adjoin from the current position to the target, have left < right, have their bottom not above their top on both sides, stay within the bounding box of the polygon, meet the polygon's vertices exactly, and have no negative area; curr() is then at the target with its bottom not above its top. cross_area gives no cell a negative, infinite or undefined area. cross_bounds and cross_ubounds agree, their cell indices are in range and in order, and the innermost bounds lie within the bounding box.",
 "All monotone polygons with f64/f32 coordinates and all sequences of positions.",
 "Rounding of interpolated values depends on the low bits of all coordinates; the cases in which it changes an order are too rare to be sampled.",
 ["src/monotone/mono_poly.rs","src/monotone/rasterize.rs"],
 [("interpolate in Scanner::peek_next","src/monotone/mono_poly.rs"),("cross_idx, cross_pt","src/monotone/rasterize.rs"),("Trapz::area","src/monotone/mono_poly.rs")],
 ["yielded Trapz","Scanner::curr()","cross_area, cross_bounds, cross_ubounds"])
p("C20","Intersecting two segments keeps its guarantees when every operation rounds",
 "With floating-point coordinates, intersect_line_ordered returns None exactly for segments without a common point (no rounding decides it), an overlap it returns is exact, and a point it returns, although rounded, is not before the first point of either segment in sweep order, so the sweep can continue there. Sweeping two segments that do not overlap never panics, ends, and reports the pair exactly if they meet.",
 "All pairs of segments with floating-point coordinates.",
 "The rounded intersection leaves the order of the end points only for particular low bits of nearly parallel or nearly vertical segments.",
 ["src/line_or_point.rs","src/crossings/sweep.rs"],
 [("intersect_line_ordered and its nudge by next_after","src/line_or_point.rs"),("Sweep::handle_event, adjust_one_segment","src/crossings/sweep.rs")],
 ["return value","items of Intersections","panics"])
p("C21","The splay tree keeps every entry exactly once and releases it without recursion",
 "Whatever is inserted, replaced, removed, extended, cleared, cloned, iterated from both ends (in part or to the end) or dropped: every key and value that entered the tree is handed out or dropped exactly once, and dropping, clearing and iterating a tree needs a bounded stack, however deep the tree is.",
 "All histories of operations on all keys, all trees.",
 "Tests check contents of small trees only; a leak or a double drop is invisible to them, and the depth at which a recursion overflows is never reached.",
 ["src/splay/tree.rs","src/splay/node.rs","src/splay/set.rs"],
 [("SplayTree::clear, drop","src/splay/tree.rs"),("IntoIter and its Drop","src/splay/tree.rs"),("pop_left, pop_right","src/splay/node.rs")],
 ["drops of keys and values","stack depth"])
P[-1]["quantifier"]["over"]=["histories","inputs"]
p("C22","Where no point has to be computed, floating-point input is handled exactly",
 "For segments and points with floating-point coordinates of which no two cross inside of both, the sweep yields exactly the end points in order and pieces with exactly these ends; for valid polygons with floating-point vertices the vertices are classified, and the monotone pieces are made, as in exact arithmetic, from the given vertices alone; a boolean operation on polygons whose boundaries do not cross returns rings of the given vertices that enclose exactly the right region. The order of two segments, or of a segment and a point, is decided exactly. So no rounding, however close the points are to a common line, has an effect.",
 "All such sets of segments, polygons and pairs of polygons with floating-point coordinates.",
 "A rounded decision differs from the exact one only if points are within an ulp or so of a common line (or of each other), which tests do not meet.",
 ["src/line_or_point.rs","src/crossings/sweep.rs","src/monotone/sweep.rs","src/monotone/chains.rs","src/bops/op.rs","src/bops/rings.rs","src/bops/laminar.rs"],
 [("PartialOrd for LineOrPoint","src/line_or_point.rs"),("Sweep::find_intersection_type","src/monotone/sweep.rs"),("Ring::from_coords","src/bops/rings.rs")],
 ["yielded points and pieces","pieces, events","rings of results"])
NA=[("C90","Floating-point robustness of the sweep",
 "For f64 and f32 input of any magnitude the sweep does not panic and its results are those of the exact computation up to rounding.",
 "All finite f64/f32 inputs.",
 "Rounding of computed crossings depends on the low bits of every coordinate.",
 ["src/crossings/sweep.rs","src/line_or_point.rs"],[("intersect_line and next_after nudge","src/line_or_point.rs")],
 "The computed crossings round, the order of the search tree then rests on adaptive-precision predicates (robust::orient2d: hundreds of f64 operations with data-dependent length) composed over data-dependent sweeps; beyond two segments the paths are too many and their formulas too deep for the installed solvers. Decided instead: the generic code over exact reals (C01-C18), and what has to survive rounding in scanning (C19, f64 bit by bit) and in intersecting and sweeping two segments (C20), and that input whose segments do not cross is handled without any rounding (C22). The general statement is false on this tree: sweeps of several segments that differ in the last digits can panic on internal assertions."),
 ("C91","The sweep runs in O((n + k) log n)",
 "Finding k crossings of n segments takes O((n + k) log n) steps.",
 "All inputs.",
 "Asymptotic; tests have no cost model.",
 ["src/crossings/sweep.rs","src/splay/tree.rs"],[("splay tree and event heap","src/splay/tree.rs")],
 "An asymptotic bound is a statement about unbounded sizes; within the bounds a solver can reach (3-4 segments) it says nothing. Only a step bound per path is enforced, which catches non-termination.")]
for id,t,s,tx,w,f,m,r in NA: p(id,t,s,tx,w,f,m,["panics, results"] if id=="C90" else ["running time"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
checks=[]
for x in P:
    if x["id"][1]=="9": continue
    i=x["id"]
    fpq=i in("C19","C20","C22")
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
     "technique":"symbolic execution of the compiled generic code at symbolic IEEE-754 terms (concolic: every branch negated in turn), decided by cvc5 (bit-precise floating point) and z3 (laws of rounding over linear arithmetic, polynomials over the reals), counterexamples re-run concretely" if fpq else "symbolic execution of the compiled generic code at a symbolic real scalar, every branch and assertion decided by z3, counterexamples replayed exactly",
     "level":"model_checking",
     "level_note":"Exhaustive over all floating-point values of the symbolic coordinates within each scene, for the format stated there (C19: f64 and f32; C20, C22: formats of 4 and 6 digits in which the same code runs, f32 and f64 in thorough; what was left at the time bound and what stayed undecided is counted in the evidence). Orientation predicates are taken as exact. Trusts rustc, cvc5, z3 (samples of the answers of one are put to the other), the engine in symx/src/{fp,z3fp,fprun}.rs and the assertions in symx/src/scenes/{round,flat}.rs." if fpq else "Exhaustive over all real values of the symbolic coordinates within each scene (shapes, ranges and sizes stated in the evidence; what was left at the time bound is counted there). Exact real arithmetic, not f64 rounding. Trusts rustc, z3 (a sample of unsat answers is cross-checked by cvc5), the engine in symx/src and the oracles in symx/src/scenes."})
M={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[{"property":a[0],"reason":a[-1]} for a in NA],
"notes":"No hooks in /repo: the library is generic over its coordinate type, so it is executed symbolically by instantiating it with a symbolic scalar. Robust predicates are reached through a patched copy of the robust crate in vendor/."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
