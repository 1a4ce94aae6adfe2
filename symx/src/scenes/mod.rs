pub mod flat;
pub mod geom;
pub mod bops;
pub mod gen;
pub mod cross;
pub mod lines;
pub mod mono;
pub mod pipe;
pub mod round;
pub mod scan;
pub mod splay;

/// Print generated inputs (set by `symx replay`).
pub fn show() -> bool {
    SHOW.load(std::sync::atomic::Ordering::Relaxed)
}
pub static SHOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

use crate::run::Scene;

pub const PROPS: &[&str] = &["C01","C02","C03","C04", "C05", "C12","C10","C11","C13","C14","C09","C06","C07","C08","C15","C16","C17","C18","C19","C20","C21","C22"];

pub struct Info {
    pub functions: &'static [&'static str],
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}
pub fn info(p: &str) -> Option<Info> {
    Some(match p {
        "C01" => Info {
            functions: &["Intersections::from_iter/next/step", "CrossingsIter::from_iter/next/intersections", "crossings::Sweep::{new,next_event,handle_event,create_segment,adjust_for_intersection,adjust_one_segment,segment_for_event,chain_overlap,prev_active}", "Segment::{split_at,adjust_for_intersection}", "LineOrPoint::{from,intersect_line,intersect_line_ordered,partial_cmp,eq}", "SweepPoint::cmp", "Event::cmp", "SplaySet/SplayTree/SplayWrap (as active set)", "BinaryHeap<Event>", "geo::line_intersection"],
            bounds: "up to 3 segments or points (4 in thorough): each given by a direction from a menu of 5 or 6 (right, up, diagonal, downward, point) translated by a free vector in [-4,4]^2 or [-5,5]^2; one segment with both end points free in [-3,3]^4 against 1 or 2 segments of a menu (crossing, overlapping, sharing an end); one free translate against fixed configurations of 3 to 5 segments (stars, grids, stacks of overlaps); 160 catalogue configurations of 2 to 5 segments plus a group of 1 to 3 translated freely (1500 of up to 6 in thorough); 1500 of 2 to 7 with a group translated along a line or everything sheared by a free factor in [-4,4] (20000 of up to 9 in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "pairs lost through the recorded finding (see known_findings.txt) are excused only where the lost flag is observed"],
        },
        "C02" => Info {
            functions: &["CrossingsIter::from_iter/next/intersections", "crossings::Sweep::{new,next_event,handle_event,create_segment,adjust_for_intersection,adjust_one_segment,segment_for_event,chain_overlap,prev_active}", "Segment::{split_at,adjust_for_intersection}", "LineOrPoint::{from,intersect_line,intersect_line_ordered,partial_cmp,eq}", "SweepPoint::cmp", "Event::cmp", "SplaySet/SplayTree/SplayWrap (as active set)", "BinaryHeap<Event>", "geo::line_intersection"],
            bounds: "up to 3 segments or points (4 in thorough): each given by a direction from a menu of 5 or 6 (right, up, diagonal, downward, point) translated by a free vector in [-4,4]^2 or [-5,5]^2; one segment with both end points free in [-3,3]^4 against 1 or 2 segments of a menu (crossing, overlapping, sharing an end); one free translate against fixed configurations of 3 to 5 segments (stars, grids, stacks of overlaps); 160 catalogue configurations of 2 to 5 segments plus a group of 1 to 3 translated freely (1500 of up to 6 in thorough); 1500 of 2 to 7 with a group translated along a line or everything sheared by a free factor in [-4,4] (20000 of up to 9 in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C03" => Info {
            functions: &["CrossingsIter::from_iter/next/intersections", "crossings::Sweep::{new,next_event,handle_event,create_segment,adjust_for_intersection,adjust_one_segment,segment_for_event,chain_overlap,prev_active}", "Segment::{split_at,adjust_for_intersection}", "LineOrPoint::{from,intersect_line,intersect_line_ordered,partial_cmp,eq}", "SweepPoint::cmp", "Event::cmp", "SplaySet/SplayTree/SplayWrap (as active set)", "BinaryHeap<Event>", "geo::line_intersection"],
            bounds: "up to 3 segments or points (4 in thorough): each given by a direction from a menu of 5 or 6 (right, up, diagonal, downward, point) translated by a free vector in [-4,4]^2 or [-5,5]^2; one segment with both end points free in [-3,3]^4 against 1 or 2 segments of a menu (crossing, overlapping, sharing an end); one free translate against fixed configurations of 3 to 5 segments (stars, grids, stacks of overlaps); 160 catalogue configurations of 2 to 5 segments plus a group of 1 to 3 translated freely (1500 of up to 6 in thorough); 1500 of 2 to 7 with a group translated along a line or everything sheared by a free factor in [-4,4] (20000 of up to 9 in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "first_segment is excused only on a first piece that was cut (recorded finding)"],
        },
        "C04" => Info {
            functions: &["LineOrPoint::{from,line,second,is_line,partial_cmp,eq}", "SweepPoint::{from,coord,cmp,partial_cmp,eq}"],
            bounds: "end points free in [-4,4] (normal form) and [-2,2] (three points); order: one line from a menu of 8 directions against a line with four free coordinates in [-5,5]; transitivity: 4x4 directions, one translate and one fully free line",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "order of two lines asserted only where both left ends precede both right ends (documented precondition)"],
        },
        "C05" => Info {
            functions: &["LineOrPoint::{intersect_line,intersect_line_ordered,coords_equal}", "geo::line_intersection"],
            bounds: "first segment from a menu of 8 directions at the origin, second with four free coordinates in [-5,5]; thorough: both segments free in [-4,4] and [-5,5]",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C06" => Info {
            functions: &["BooleanOp::{intersection,union,difference,xor}", "bops::Op::{new,add_polygon,add_closed_ring,sweep}", "Region::{infinity,cross,is_ty}", "Rings::{add_edge,finish,push_link,link_chains}", "Ring::from_coords", "laminar::assemble", "CrossingsIter and the sweep below it"],
            bounds: "all four operations; second operand translated by a free vector in [-5,5]^2 over 3 pairs of shapes (convex, concave; both argument orders); 200 catalogue pairs of polygons of 3 to 6 vertices with up to two holes, touching rings and repeated vertices, the second moved along a line or both sheared by a free factor in [-4,4]; two axis-parallel rectangles, the second with four free sides; a triangle with a free vertex in [-5,5]^2 against a square; thorough: 13 more shape pairs incl. holes, 1500 catalogue pairs of up to 8 vertices, 200 pairs with a freely moved operand",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "operands are valid polygons"],
        },
        "C07" => Info {
            functions: &["BooleanOp for MultiPolygon", "Op::add_multi_polygon", "bops::Op::{new,add_polygon,add_closed_ring,sweep}", "Region::{infinity,cross,is_ty}", "Rings::{add_edge,finish,push_link,link_chains}", "Ring::from_coords", "laminar::assemble", "CrossingsIter and the sweep below it"],
            bounds: "all four operations; two disjoint parts against a square, diamond, nothing, two parts, or two triangles; a part nested in the hole of another against a square (thorough: frame, two parts); translated by a free vector in [-5,5]^2; 100 catalogue pairs of multi-polygons of up to 3 and 2 parts (islands in frames, parts touching in a point, empty operand), moved along a line or sheared (1000 in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "operands are valid multi-polygons"],
        },
        "C08" => Info {
            functions: &["BooleanOp::{intersection,union,difference,xor}", "bops::Op::{new,add_polygon,add_closed_ring,sweep}", "Region::{infinity,cross,is_ty}", "Rings::{add_edge,finish,push_link,link_chains}", "Ring::from_coords", "laminar::assemble", "CrossingsIter and the sweep below it"],
            bounds: "all four operations; second operand translated by a free vector in [-5,5]^2 over 3 pairs of shapes (convex, concave; both argument orders); 200 catalogue pairs of polygons of 3 to 6 vertices with up to two holes, touching rings and repeated vertices, the second moved along a line or both sheared by a free factor in [-4,4]; two axis-parallel rectangles, the second with four free sides; a triangle with a free vertex in [-5,5]^2 against a square; thorough: 13 more shape pairs incl. holes, 1500 catalogue pairs of up to 8 vertices, 200 pairs with a freely moved operand; 100 catalogue pairs of multi-polygons (600 in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "operands are valid polygons"],
        },
        "C09" => Info {
            functions: &["monotone_chains", "MonotoneSweep::{from_polygon,process_event,get_next_segments,find_intersection_type,add_closed_ring}", "monotone::Segment::{new,partial_cmp}", "Helper", "MonoPoly::new", "Active/SplaySet"],
            bounds: "polygons of 7 vertices with free abscissae at fixed heights, also around a hole; five polygons of 4 to 10 vertices with any one vertex moving freely within +-3 while the polygon stays valid (two vertices in thorough); one hole moving freely inside three exteriors (two holes in thorough); star-shaped hexagons with free radii; 1500 catalogue polygons of 4 to 11 vertices with up to two holes, of which a vertex or hole moves along a line, or which are sheared by a free factor in [-3,3] (20000 of up to 14 vertices in thorough); both ring directions of exterior and holes, repeated vertices",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "input polygon is valid (simple rings, holes inside and apart; decided symbolically on each path)"],
        },
        "C15" => Info {
            functions: &["MonotoneSweep::{from_polygon,process_event,get_next_segments,find_intersection_type,add_closed_ring}", "monotone::Segment::{new,partial_cmp}", "Helper", "MonoPoly::new", "Active/SplaySet"],
            bounds: "polygons of 7 vertices with free abscissae at fixed heights, also around a hole; five polygons of 4 to 10 vertices with any one vertex moving freely within +-3 while the polygon stays valid (two vertices in thorough); one hole moving freely inside three exteriors (two holes in thorough); star-shaped hexagons with free radii; 1500 catalogue polygons of 4 to 11 vertices with up to two holes, of which a vertex or hole moves along a line, or which are sheared by a free factor in [-3,3] (20000 of up to 14 vertices in thorough); both ring directions of exterior and holes, repeated vertices",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "input polygon is valid (simple rings, holes inside and apart; decided symbolically on each path)"],
        },
        "C10" => Info {
            functions: &["MonoPoly::{new,top,bot,scan_lines}", "Scanner::{new,advance_to,advance_upto,next,curr}", "Trapz::area"],
            bounds: "seven shapes of chains (up to 6 vertices each, with vertical edges, shared and distinct abscissae); free start and two free targets in [-1,5] with concrete heights, or one free target with free heights; three targets, and two with free heights, in thorough; 120 catalogue pairs of chains of up to 10 vertices (1 to 3 vertices per abscissa, vertical edges at both ends, sheared) with a free start and target or two free targets (400 more in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C11" => Info {
            functions: &["MonoPoly::{new,top,bot,scan_lines}", "Scanner::{new,advance_to,advance_upto,next,curr}", "Trapz::area", "Scanner::cross_area"],
            bounds: "seven shapes of chains (up to 6 vertices each, with vertical edges, shared and distinct abscissae); either free strip borders in [-1,5] with concrete heights, or free cell range in [-6,6], or free heights (-4..-1, -1..1, 1..4); 1 to 3 cells; two strips in a row; 150 catalogue pairs of chains of up to 10 vertices with 1 to 4 cells and a free strip border or cell offset (5000 more in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C14" => Info {
            functions: &["MonoPoly::{new,top,bot,scan_lines}", "Scanner::{new,advance_to,advance_upto,next,curr}", "Trapz::area", "Scanner::{cross_bounds,cross_ubounds}"],
            bounds: "seven shapes of chains (up to 6 vertices each, with vertical edges, shared and distinct abscissae); either free strip borders in [-1,5] with concrete heights, or free cell range in [-6,6], or free heights (-4..-1, -1..1, 1..4); 1 to 3 cells; two strips in a row; 150 catalogue pairs of chains of up to 10 vertices with 1 to 4 cells and a free strip border or cell offset (5000 more in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C13" => Info {
            functions: &["MonoPoly::{new,top,bot,into_ls_pair,into_polygon,bounding_rect}"],
            bounds: "seven shapes of chains with free heights; 100 catalogue pairs of chains with a free shear; constructor: chains of 2 and 3 vertices with two free points in [-1,2]^2",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C12" => Info {
            functions: &["SplayTree::{new,insert,remove,get,get_mut,index,contains,find_key,next,prev,min,max,len,is_empty,into_iter}", "SplaySet::{insert,remove,contains,find,next,prev,min,max,extend,clear,into_iter}", "splay, IntoIter::{next,next_back}"],
            bounds: "every history of 4 operations with free keys in [0,20] on an empty tree (5 in thorough); every 2 operations (3 in thorough) with free keys on trees of 7 to 9 keys built in 7 insertion orders; sets of 3 (4) free keys; iteration from both ends in every pattern of period 4",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C16" => Info {
            functions: &["monotone_chains and the sweep below it", "MonoPoly::{new,scan_lines}", "Scanner::{new,advance_to,advance_next,peek_next}", "Scanner::cross_area", "Trapz::area"],
            bounds: "360 catalogue polygons of 3 to 7 vertices in [-3,3]^2 with up to two holes, 1 to 3 columns of 1 to 4 rows whose columns or rows are shifted by, or whose polygon is sheared by, a free number in [-2,2] (8000 more of up to 9 vertices in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "input polygons are valid"],
        },
        "C17" => Info {
            functions: &["BooleanOp for MultiPolygon", "Op::{add_multi_polygon,sweep}", "Rings::{add_edge,finish}", "laminar::assemble", "the sweep below them"],
            bounds: "90 catalogue triples of polygons of 3 to 5 vertices (one hole in the first): any of the four operations on the result of one; either two fixed operands and a third moving along a line, or the second moving and the third equal to one of them (3000 more in thorough)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim; orient2d is exact; next_after is modelled as a step of 2^-60 (no path on this tree takes it if nudges is 0)", "step bound 3,000,000 scalar operations per path (exceeding it is reported)", "input polygons are valid"],
        },
        "C18" => Info {
            functions: &["Crossable for Line, &T, Box, Rc, Arc", "CrossingsIter::{from_iter,next,intersections,intersections_mut}", "Intersections::{from_iter,next}", "the sweep below them"],
            bounds: "60 catalogue configurations of 3 to 7 segments and points (1000 of up to 8 in thorough), a group of them moving along a line; seven kinds of input against a custom type, and lines from iterators with six other size hints (none, too large by far, exact, short)",
            assumptions: &["coordinates are exact reals: f64 rounding of computed points is outside the claim", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C19" => Info {
            functions: &["MonoPoly::{new,top,bot,scan_lines}", "Scanner::{new,advance_to,advance_upto,advance_next,peek_next,curr}", "Trapz::area", "Scanner::{cross_area,cross_bounds,cross_ubounds}"],
            bounds: "scanning: chains with one, two or three inner corners in all (thorough: four), all corners and one or two positions (thorough: three) free in [-1024,1024] (two scenes in [-1e300,1e300]), also with upright first and last edges, f64 (two scenes f32 and 6 digits); areas and bounds: a triangle with one free corner and a free position in [1,4], two menu ends, one or two cells, f64 (thorough: free ends, three cells, two strips)",
            assumptions: &["the chains do not cross (exact conditions on the input)", "orientation predicates are not used by this code; those in the assumptions are exact", "round to nearest, no NaN or infinite input"],
        },
        "C20" => Info {
            functions: &["LineOrPoint::{from,intersect_line,intersect_line_ordered,partial_cmp}", "SweepPoint order", "geo::line_intersection and what it calls", "Intersections::{from_iter,next} and the sweep below it"],
            bounds: "one segment of a menu of six (horizontal, vertical, steep, slanted; sweep: of four), the other with four free coordinates in [1,4]; numbers of 4 binary digits and a 5 bit exponent (thorough: also 6 digits, f32 and f64)",
            assumptions: &["orient2d is exact, as robust::orient2d is for f64 input", "round to nearest, no NaN or infinite input", "a property of a small format is claimed for it; a failure found there is re-run in f32 and f64, and solved for again in f32"],
        },
        "C21" => Info {
            functions: &["SplayTree::{new,insert,remove,get,clear,into_iter}, Drop for SplayTree", "IntoIter::{next,next_back} and its end", "splay, Node"],
            bounds: "every history of 4 operations (insert, remove, get, clear, replacement of the tree; 5 in thorough) with free keys in [0,20]; trees 200 levels high, from rising and falling keys, with one further operation (two in thorough) at a free key; ended by drop, clear, an unused iterator, and an iterator used from both ends",
            assumptions: &["stack use is measured in the compiled code where keys and values are dropped, and taken to grow if a tree 200 levels high needs more than 2624 bytes", "step bound 3,000,000 scalar operations per path (exceeding it is reported)"],
        },
        "C22" => Info {
            functions: &["LineOrPoint::partial_cmp", "CrossingsIter::{from_iter,next,intersections} and the sweep below it", "monotone_chains, MonotoneSweep", "BooleanOp, Op::sweep, Rings, laminar::assemble"],
            bounds: "a free line or point against a menu of six lines; a free segment or a free point with one, or a segment with a free end or a point with two given ones; five polygons of 4 to 7 vertices with a free vertex (events and pieces); four pairs of polygons (apart, nested, with a common vertex or edge, beside a hole) of which the second has a free vertex, all four operations; coordinates in [1,4], numbers of 4 binary digits and a 5 bit exponent (thorough: 6 digits and f64)",
            assumptions: &["orient2d is exact, as robust::orient2d is for f64 input", "no two segments or edges cross inside of both; polygons are valid; the free vertex of a polygon is on no line through two other vertices"],
        },
        _ => return None,
    })
}
pub fn all(prop: &str, tier: u8) -> Vec<Scene> {
    let mut v = vec![];
    lines::scenes(&mut v);
    splay::scenes(&mut v);
    scan::scenes(&mut v);
    bops::scenes(&mut v);
    mono::scenes(&mut v);
    cross::scenes(&mut v);
    pipe::scenes(&mut v);
    v.retain(|s| s.prop == prop && s.tier <= tier);
    v
}
/// The scenes of the checks under rounding.
pub fn rounding(prop: &str, tier: u8) -> Vec<crate::fp::FScene> {
    let mut v = vec![];
    round::scenes(&mut v);
    flat::scenes(&mut v);
    v.retain(|s| s.prop == prop && s.tier <= tier);
    v
}
