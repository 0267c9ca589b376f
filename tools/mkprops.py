#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


S = 'src/src/'
I = 'src/include/'

prop('P01', 'Recorded path commands replay exactly',
     'Whatever sequence of move, line and cubic commands is recorded into a path, replaying that path reports exactly those commands, once each, in recording order and with every coordinate unchanged. The start point reported with each command is the end point of the command before it (the origin for the first one), and the caller\'s context pointer is handed to every callback untouched.',
     ['inputs', 'programs'], 'every command sequence, every coordinate value, every context pointer',
     'A test replays a few fixed paths; the guarantee is about every interleaving of the three command kinds and every coordinate.',
     [S + 'path.cpp', I + 'river.h'],
     [('recording functions append a type tag and the coordinates', 'path::moveto/lineto/cubicto in src/src/path.cpp'),
      ('replay walks tags and coordinates in step', 'path::traverse in src/src/path.cpp')])

prop('P02', 'Unset replay callbacks are skipped, never called',
     'Replaying a path with any subset of the move, line and cubic callbacks left unset never calls through an unset callback. Commands whose callback is set are reported exactly as they would be if all callbacks were set.',
     ['inputs', 'configurations'], 'every subset of unset callbacks, every command sequence',
     'There are eight callback subsets times arbitrary sequences; the existing test only ever uses the library\'s own full sets.',
     [S + 'path.cpp', I + 'river.h'],
     [('null callbacks replaced by empty ones', 'path::traverse in src/src/path.cpp')])

prop('P03', 'Path text notation maps to the commands written',
     'In the path text notation every "m x y" starts a new path at that point, and every "l x y" and "c x1 y1 x2 y2 x y" appends exactly one line or cubic with those coordinates, in writing order, to the most recently started path. A line or cubic command written before any "m" never touches a path that does not exist.',
     ['inputs'], 'every text, every command order',
     'Tests use one or two well-formed strings; wrong pairing of a letter with a handler or a leading drawing command needs its own input.',
     [S + 'river.cpp'],
     [('grammar rules bind letters to handlers', 'make_path in src/src/river.cpp'), ('handlers write to the last path', 'writer in make_path, src/src/river.cpp')])

prop('P04', 'Public calls use exactly the role, operation and targets given',
     'Every contour taken from an input path carries the subject/clip role given with that path, whichever input overload is used and wherever the contour stands in the input. The operation, fill rule, callbacks and output target given to a run are the ones used, and the run that collects paths records exactly the moves, lines and cubics that the callback run would report.',
     ['inputs', 'programs'], 'every overload, role, operation, fill rule and number of contours per input',
     'The single existing test uses one overload pair, one role layout and one operation.',
     [S + 'processor.cpp', S + 'vatti.cpp'],
     [('forwarding', 'processor::add_path/process in src/src/processor.cpp'), ('role carried to each contour', 'clipper::add_path, read_moveto, insert_vertex_list, add_local_min in src/src/vatti.cpp'), ('collecting writers', 'write_moveto/write_lineto/write_cubicto in src/src/vatti.cpp')])

prop('P05', 'Cubic Bezier evaluation and splitting are exact',
     'For every control polygon and parameter, evaluating a cubic gives its Bernstein value, and splitting it at a parameter gives two cubics that trace exactly the part before and the part after that parameter. Splitting at an increasing list of parameters gives the consecutive parts in order, and the circle helper returns four quarter arcs that join end to start into one closed, smooth, counter-clockwise loop of the given centre and radius.',
     ['inputs'], 'all control points and parameters (exact real arithmetic)',
     'Polynomial identities over reals; point samples miss errors that cancel at symmetric or end parameters.',
     [S + 'rmath.cpp', I + 'rmath.h'],
     [('point_at', 'bezier_cubic::point_at in src/src/rmath.cpp'), ('split / multi split', 'bezier_cubic::split in src/src/rmath.cpp'), ('circle', 'bezier_cubic::circle in src/src/rmath.cpp')])

prop('P06', 'Bounding rectangles enclose their geometry',
     'The bounding rectangle reported for a line or a cubic piece contains every point of that piece, interior x and y extremes included, and is spanned by points of the piece. Two rectangles are reported as overlapping exactly when they share at least one point, edges included, and growing a rectangle moves all four sides outwards by the given amount.',
     ['inputs'], 'all coordinates and control points (exact real arithmetic, away from the code\'s own degeneracy tolerance)',
     'Which extreme lies where depends on coefficient signs; a test drawing two boxes cannot enumerate the sign cases.',
     [I + 'rmath.h', S + 'rmath.cpp', S + 'segment.h'],
     [('rectangle operations', 'rect in src/include/rmath.h, rect::intersect in src/src/rmath.cpp'), ('extreme finding', 'bezier_cubic::get_boundary in src/src/rmath.cpp'), ('per-segment boxes', 'get_boundary overrides in src/src/segment.h')])

prop('P07', 'Line-line intersection reports the true crossing',
     'Two segments that are not parallel are reported as crossing exactly when a common point exists, end points included, and the reported point and both parameters locate that point on both segments. For collinear overlapping segments every end point strictly inside the other segment is reported with matching parameters, symmetrically in the two arguments, and parallel segments on different lines report nothing.',
     ['inputs'], 'all pairs of segments (exact real arithmetic)',
     'Every sign combination of the two parameters and every collinear arrangement matters; the existing test only hits a few crossings.',
     [S + 'rmath.cpp'],
     [('solve and range test', 'intersect(vec2 x4) in src/src/rmath.cpp'), ('collinear handling', 'dist2_point_line, point_between_two_point in src/src/rmath.cpp')])

prop('P08', 'Curve crossings with lines and levels lie on both curves',
     'Crossings of a segment with a cubic, and of a cubic with a horizontal level, are found from the exact polynomial equation of the two curves; every root in [0,1] within the segment\'s extent is reported, and none outside. Each reported point is the cubic\'s point at the reported curve parameter and sits at the reported parameter on the segment; the x position of an edge at a level is that of its segment at that level.',
     ['inputs'], 'all segments, cubics and levels (exact real arithmetic, given the roots)',
     'Coefficient identities and range conditions must hold for all control points, not a few picked curves.',
     [S + 'rmath.cpp', S + 'segment.cpp', S + 'segment.h'],
     [('line-cubic', 'intersect(line, bezier_cubic) and line::general_from in src/src/rmath.cpp'), ('level query', 'bezier_cubic::point_at_y in src/src/rmath.cpp'), ('edge x at level', 'curr_x overrides in src/src/segment.h, segment.cpp')])

prop('P09', 'Quadratic and cubic solvers return only and all real roots',
     'Every value the quadratic and cubic equation solvers return satisfies the equation in exact arithmetic (coefficients within the degeneracy tolerance counting as zero), and the number of values returned is the number of distinct real roots in each discriminant case. Degenerate equations fall back to the lower-degree equation with the same remaining coefficients.',
     ['inputs'], 'all coefficient values outside the tolerance band (exact real arithmetic)',
     'Root formulas have sign and branch cases (positive, zero, negative discriminant; sign of the angle) that samples rarely cover.',
     [S + 'rmath.cpp'],
     [('quadratic', 'resolv_quad_equa in src/src/rmath.cpp'), ('cubic', 'resolv_cubic_equa in src/src/rmath.cpp')])

prop('P10', 'Curve-curve search never discards a crossing region',
     'The search for crossings of two cubics halves both curves, keeps the exact halves with the parameter ranges that belong to them, examines all four combinations of halves and discards a combination only if the rectangles around the two pieces\' control points are disjoint. Each reported crossing carries the mid parameters of the two final pieces and the first curve\'s point at its parameter.',
     ['inputs'], 'all pairs of cubics, every subdivision step',
     'A dropped quadrant loses crossings only for curves crossing in that quadrant at some depth.',
     [S + 'rmath.cpp'],
     [('subdivision', 'data::subdive in src/src/rmath.cpp'), ('pair search', 'intersect(bezier_cubic, bezier_cubic) in src/src/rmath.cpp')])

prop('P11', 'Result arrays are never overrun and counts match their contents',
     'No input makes an intersection, level or equation routine write outside its fixed-size result or report more entries than the result can hold. Every entry counted as reported has been filled in, parameter and point included.',
     ['inputs'], 'all inputs, degenerate and coincident ones included',
     'Overruns need degenerate coincidences (zero-length or coincident segments) that ordinary tests do not contain.',
     [S + 'rmath.cpp', I + 'rmath.h'],
     [('fixed capacity results', 'line_intersect_result, line_cubic_intersect_result, cubic_intersect_result, point_at_y_result, quad/cubic_equa_result in src/include/rmath.h')])

prop('P12', 'Input curves are cut into vertically monotone pieces in order',
     'A cubic read from an input path is cut exactly at its interior vertical extremes, taken in increasing parameter order, and the pieces chain without gaps from the point where the previous command ended to the given end point. Zero-length lines add nothing, a level cubic becomes a straight line, and a new move closes off the contour read so far and starts a fresh one.',
     ['inputs', 'histories'], 'all control points and command sequences',
     'The order of the two extremes depends on coefficient signs; only some curve shapes expose a wrong order.',
     [S + 'vatti.cpp', S + 'rmath.cpp'],
     [('extreme parameters', 'bezier_cubic::split_y in src/src/rmath.cpp'), ('reading', 'read_moveto/read_lineto/read_cubicto, set_segment in src/src/vatti.cpp')])

prop('P13', 'An edge bounds the result exactly when the fill rule says so',
     'Given the winding numbers around an edge, the edge is used as a boundary of the result exactly when the filled/unfilled state of the result, under the chosen fill rule and boolean operation and the edge\'s subject/clip role, differs between its two sides. This holds for all four fill rules, all operations and all winding numbers.',
     ['inputs', 'configurations'], 'every fill rule, operation, role and pair of winding counts',
     'The table has hundreds of cells; the existing test exercises one operation and one fill rule.',
     [S + 'vatti.cpp'],
     [('decision', 'clipper::is_contributing in src/src/vatti.cpp')])

prop('P14', 'Winding numbers are propagated correctly across edges',
     'The winding number assigned to an edge for its own role is the one reached by crossing all same-role edges to its left, and the one for the other role counts exactly the other-role edges to its left (parity under even-odd), whatever mix and order of roles and directions the edges have. Edges at a changed position are recomputed, and lose their old output attachment, before the result is assembled.',
     ['inputs', 'histories', 'configurations'], 'every left-to-right arrangement of edges, roles, directions, fill rules and incoming counts',
     'Errors show only for particular nestings (e.g. three overlapping contours with mixed direction).',
     [S + 'vatti.cpp'],
     [('propagation', 'clipper::calc_windcnt in src/src/vatti.cpp'), ('recalculation of changed positions', 'clipper::recalc_windcnt in src/src/vatti.cpp')])

prop('P15', 'Every found crossing is recorded on both segments',
     'For each pair of segments examined, whatever their kinds and order, the matching intersection routine is used on exactly those two segments, and every crossing it finds is recorded once for each segment in whose interior it lies, with that segment\'s own parameter and the crossing point. Crossings at a segment\'s end points are not recorded for that segment.',
     ['inputs', 'programs'], 'all pairs of line/cubic segments in both argument orders, all crossings',
     'Swapped parameters or a missing kind combination only matter for asymmetric crossings.',
     [S + 'vatti.cpp'],
     [('dispatch', 'clipper::intersect in src/src/vatti.cpp')])

prop('P16', 'Splitting at crossings preserves every contour',
     'After crossings are inserted, each contour is still one closed ring linked consistently in both directions that visits the old vertices in the old order; each split segment is replaced by pieces that run through its recorded crossing points in increasing parameter order and together trace the original segment. Vertices keep their position and local minimum/maximum marks.',
     ['inputs', 'histories'], 'every set of crossings on any number of segments of a ring',
     'Bugs need several crossings on one segment or crossings found in a particular order.',
     [S + 'vatti.cpp'],
     [('splitting', 'clipper::process_intersect, set_segment in src/src/vatti.cpp')])

prop('P17', 'Contours are closed and their extreme vertices marked once',
     'Every contour read is closed into a ring (a closing line is added only if its end differs from its start), a vertex is marked a local minimum exactly where the ring turns from descending to ascending and a local maximum exactly where it turns from ascending to descending, level runs counting as one turn, so minima and maxima alternate around the ring. Each local minimum is registered once with its contour\'s role, and completely level contours are ignored.',
     ['inputs'], 'every cyclic sequence of up, down and level steps, closed or unclosed',
     'Wrap-around at the start vertex and level runs create cases a few test contours do not hit.',
     [S + 'vatti.cpp'],
     [('ring closing and marking', 'clipper::insert_vertex_list, add_local_min in src/src/vatti.cpp')])

prop('P18', 'The active edge list stays a consistent, correctly ordered list',
     'Inserting, removing, finishing and re-sorting active edges always leaves a doubly linked list whose forward and backward links agree, whose head is its first element, which contains exactly the edges it should and which keeps the relative order of untouched edges. A new edge is placed after every edge it must follow and before the first it must precede, comparing the x position, then the x position midway through the common vertical range, then subject before clip.',
     ['inputs', 'histories'], 'every list length and position of insertion, removal or re-sort',
     'Link errors at head, tail or middle show up only when that position is used later in the sweep.',
     [S + 'vatti.cpp'],
     [('list operations', 'clipper::insert_into_ael, take_from_ael, delete_active_edge, resort_ael in src/src/vatti.cpp'), ('order', 'clipper::is_valid_ael_order in src/src/vatti.cpp')])

prop('P19', 'The open output list stays consistent',
     'Removing open output boundaries and rebuilding their list always leaves forward and backward links that agree, a head that is the first element, exactly the boundaries of the edges now bounding the result in left-to-right order, and no link to a boundary that is finished.',
     ['inputs', 'histories'], 'every list length and removal position, every set of bounding edges',
     'A stale link is followed only in a later sweep step of particular inputs.',
     [S + 'vatti.cpp'],
     [('removal', 'clipper::delete_obl_bound, close_output in src/src/vatti.cpp'), ('rebuild', 'clipper::update_ouput_bound in src/src/vatti.cpp')])

prop('P20', 'A run is independent of earlier runs on the same processor',
     'Running an operation repeatedly on one processor (with the same or a different operation or fill rule, with or without paths added in between) reports only the result of the current run: nothing left over from an earlier run is reported, followed or used to decide anything. All sweep state is re-established before it is used.',
     ['histories'], 'every sequence of add and run calls',
     'The existing test runs a processor once.',
     [S + 'vatti.cpp', S + 'vatti.h'],
     [('state re-initialisation', 'clipper::process, clipper::reset, clipper::process_intersect in src/src/vatti.cpp')])

prop('P21', 'Output chains are grown and joined without gaps or losses',
     'Starting, extending and joining output chains keeps every chain a gap-free sequence of pieces in which each piece starts where the one before it ends, connecting lines included, for all positions of the two ends and either direction. Joining two chains keeps every piece of both exactly once, in an order that runs continuously through the joint, re-attaches the surviving open end, and completes the chain when both ends belong to it.',
     ['inputs', 'histories'], 'every pair of chain ends, directions, contents and relative ages',
     'Which of the eight joint configurations occurs depends on the geometry of holes and overlaps.',
     [S + 'vatti.cpp'],
     [('chain operations', 'clipper::new_output, update_bound, join_output in src/src/vatti.cpp'), ('piece copying', 'clipper::do_top_of_scanbeam, copy_seg in src/src/vatti.cpp')])

prop('P22', 'Reported output is a well-formed command stream',
     'For every completed, non-empty output chain the run reports one move to its origin followed by its pieces in chain order as lines or cubics according to their kind, each starting where the previous command ended and with its own coordinates; incomplete and empty chains report nothing, and the caller\'s target is passed to every callback.',
     ['inputs', 'histories'], 'every set of chains, piece kinds and completion states',
     'The existing test compares one output drawing.',
     [S + 'vatti.cpp'],
     [('reporting', 'clipper::build_output, write_path in src/src/vatti.cpp')])

prop('P23', 'All segment kinds copy, reverse and identify themselves faithfully',
     'For every segment kind, a copy (in place or newly allocated) has the same kind and the same coordinates, the reported end point and kind are its own, and reversing it relative to its start yields the same geometry run backwards, so reversing twice restores it. Two edges are treated as coincident exactly when they have the same ends, kind and control points up to reversal.',
     ['inputs'], 'all segment kinds used by the clipper and all coordinates',
     'A copy that drops one field or a reversal that forgets the control points only matters on particular curve outputs.',
     [S + 'segment.h', S + 'segment.cpp', S + 'vatti.cpp'],
     [('segment classes', 'seg_moveto/seg_lineto/seg_arcto/seg_cubicto in src/src/segment.h'), ('typed copies', 'clipper::copy_seg in src/src/vatti.cpp'), ('coincidence', 'is_same in src/src/vatti.cpp')])

prop('P24', 'Records are fully initialised before anything reads them',
     'Every internal record obtained from a memory pool is constructed as its own type, with the values it was requested with, before it is used or returned. No value that was never set is read, and no link or pointer is followed before it has been assigned.',
     ['inputs', 'histories'], 'every allocation made during reading and sweeping',
     'Uninitialised pool memory often happens to be zero in tests.',
     [S + 'vatti.cpp', S + 'segment.h'],
     [('factories', 'clipper::new_* in src/src/vatti.cpp'), ('placement construction', 'construct_at in src/src/segment.h')])

prop('P25', 'All orderings used for sorting are consistent',
     'Every ordering the clipper hands to a sort or ordered container is a strict weak ordering (irreflexive, asymmetric, transitive, with transitive equivalence) and sorts in the direction the sweep relies on: bottom to top then left to right, by segment then by increasing parameter, by increasing position.',
     ['inputs'], 'all triples of elements',
     'An inconsistent comparator corrupts a sort only for particular element combinations.',
     [S + 'vatti.cpp', S + 'scan_line.h', S + 'rmath.cpp'],
     [('comparators', 'lambdas in clipper::reset, process_intersect, update_ouput_bound; scan_point_compare in src/src/scan_line.h; crossings sort in rmath::intersect(bezier_cubic x2) in src/src/rmath.cpp')])

prop('P26', 'The sweep visits every level once, bottom to top',
     'The sweep\'s levels are delivered in strictly increasing order, each once however often it was requested, until none is left. Every local minimum enters the sweep at its own level with one ascending and one descending edge, and the top of every edge in the sweep is scheduled as a level.',
     ['inputs', 'histories'], 'every multiset of requested levels and every interleaving of requests and deliveries',
     'Duplicate levels and levels requested late are input dependent.',
     [S + 'vatti.cpp', S + 'vatti.h'],
     [('level queue', 'clipper::insert_scanline, pop_scanline in src/src/vatti.cpp'), ('minima entry', 'clipper::pop_local_minima, insert_local_minima_to_ael in src/src/vatti.cpp'), ('edge advance', 'clipper::do_top_of_scanbeam in src/src/vatti.cpp')])

prop('P27', 'The pair search examines every overlapping pair of segments once',
     'Any two segments whose bounding rectangles share a point are handed to the crossing test exactly once, and pairs whose rectangles are disjoint never are, whatever the number, order and coincidence of segments.',
     ['inputs'], 'every set of bounding rectangles and every insertion order',
     'Which pairs are live together depends on the order of rectangle sides; touching rectangles are the boundary case.',
     [S + 'scan_line.h', S + 'vatti.cpp'],
     [('sweep over x', 'scan_line::add_segment, process, get_point in src/src/scan_line.h')])

prop('P28', 'Processors are independent of each other',
     'Two processors never influence one another, whether used one after the other or at the same time in different threads: no function of the library keeps state outside the objects passed to it.',
     ['schedules', 'programs'], 'every interleaving of calls on different processors',
     'Hidden shared state shows up only under particular thread schedules or call orders.',
     ['src/src', 'src/include'],
     [('absence of mutable static data', 'all functions in src/src and src/include')])

prop('P29', 'Memory is released exactly once and never shared by copying',
     'Everything a run allocates is released by the time its processor is destroyed, nothing is released twice, and a processor cannot be duplicated in a way that makes two objects own the same internals.',
     ['histories', 'programs'], 'every sequence of construction, use, copying, moving and destruction',
     'Leaks and double releases do not change test output.',
     [S + 'processor.cpp', I + 'river.h', S + 'scan_line.h', S + 'vatti.h'],
     [('ownership', 'processor in src/include/river.h, scan_line in src/src/scan_line.h, pools in src/src/vatti.h')])

prop('P30', 'Developer drawing never changes results',
     'Building with graphics debugging switched on changes nothing but what is drawn: the debugging-only code neither alters the geometry, the sweep state or the reported output, nor decides which regular code runs.',
     ['configurations', 'inputs'], 'every input, debugging on or off',
     'Tests build only one configuration.',
     [S + 'vatti.cpp', S + 'util.cpp'],
     [('debug-only blocks', 'RIVER_GRAPHICS_DEBUG regions in src/src/vatti.cpp')])

# ---- properties this technique family cannot decide here
prop('P31', 'The reported region equals the boolean combination of the inputs',
     'For straight-sided inputs, and curved inputs crossed by straight edges, whose features are clearly apart, every operation and every fill rule reports paths that contain a point (not on any boundary) exactly when the boolean combination of the filled inputs contains it. This includes edges and corners that coincide, touch, are level or upright, contours that cross themselves, and several contours per role.',
     ['inputs', 'configurations'], 'all inputs, operations, fill rules and points',
     'It is a statement over all geometries and all points; the degenerate coincidences that break sweeps are rarely sampled.',
     [S + 'vatti.cpp', S + 'rmath.cpp', S + 'scan_line.h', S + 'processor.cpp'],
     [('whole clipper', 'clipper::process in src/src/vatti.cpp')])
prop('P32', 'Results are accurate to floating-point precision',
     'Reported coordinates differ from the exact mathematical result by a small multiple of the floating-point rounding unit relative to the input size, and near-degenerate inputs do not change the topology of the result.',
     ['inputs'], 'all inputs, including nearly degenerate ones',
     'Error bounds quantify over all inputs.',
     [S + 'rmath.cpp', S + 'vatti.cpp'],
     [('all geometry', 'src/src/rmath.cpp')])
prop('P33', 'Every run terminates in time proportional to its work',
     'Every run on finite input ends, without exhausting memory, in time growing at most with the number of segments and crossings (up to a logarithmic factor).',
     ['inputs'], 'all inputs',
     'Non-termination and blow-up occur on adversarial inputs only.',
     [S + 'vatti.cpp', S + 'rmath.cpp'],
     [('sweep loop and curve-curve search', 'clipper::process, intersect(bezier_cubic x2)')])

prop('P34', 'Shared points stay bit for bit the same',
     'Rounding never separates what belongs together: a crossing with a level or upright segment carries exactly that segment\'s y or x coordinate, a piece of a cut segment ends at exactly the stored position of the vertex it leads to, and every coordinate of the reported output is an unchanged copy of an input or crossing coordinate, each command starting at exactly the point where the one before it ended.',
     ['inputs'], 'all inputs, whatever the rounding',
     'Values that are equal in exact arithmetic differ in the last place only for particular inputs, and the sweep compares coordinates with ==.',
     [S + 'rmath.cpp', S + 'vatti.cpp'],
     [('crossing routines', 'rmath::intersect(vec2 x4), intersect(line, bezier_cubic) in src/src/rmath.cpp'), ('cutting', 'clipper::process_intersect, set_segment in src/src/vatti.cpp'), ('output', 'clipper::write in src/src/vatti.cpp')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
