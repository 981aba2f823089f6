"""Writes /verif/properties.jsonl (kept here so that it is easy to edit)."""
import json, os
P = []
G = 'plycutter/geometry/'
I = G + 'impl2d/'


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w}
                                        for n, w in mech],
                          'observe_at': observe or []}})


p('C01', '1D interval geometry is an exact Boolean algebra',
  'Union, intersection, difference, symmetric difference and complement of 1D geometries (sets of intervals, also unbounded ones) give exactly the set that the operation means, in exact rational arithmetic, for operands in any order, however often they are combined. Every result is in canonical form (sorted, non-empty, pairwise separated intervals), equal sets compare equal, and measure, area, emptiness, boundedness, filtering, translation and buffering (growing or shrinking) agree with the set. Operands are never modified and inexact numbers are refused.',
  ['inputs', 'histories'], 'all finite sets of intervals with rational or infinite ends, all operation sequences on them',
  'test_geom1d samples a few small random integer intervals; touching, nested, infinite and long histories are not settled.',
  [G + 'geom1d.py'], [('interval sweep', G + 'geom1d.py: Geom1D'), ('buffer', G + 'geom1d.py: Geom1D.buffer')])

p('C02', '2D set operations are exact for every expression and operand',
  'Union (binary or of any number of operands), intersection and difference of 2D geometries contain exactly the points that the Boolean operation on the operands demands, up to boundaries, in exact rational arithmetic: with holes, islands within holes, several pieces, shared or overlapping edges, touching corners, slivers and huge or tiny coordinates. This holds for operands that are themselves results of earlier operations, and the operation never fails on valid operands. Operands stay unchanged.',
  ['inputs', 'histories'], 'all polygonal sets with rational coordinates, all sequences of operations on them',
  'No existing test calls the 2D set operations with an oracle; the degenerate configurations are infinitely many.',
  [I + 'geom2d_simple_holes.py', I + 'arrangement2d.py', I + 'cell_merger.py', I + 'scan2d.py'],
  [('arrangement of all edges', I + 'arrangement2d.py: SegmentArrangement'), ('cell selection by locate', I + 'geom2d_simple_holes.py: _arrangement_op'), ('merging of cells', I + 'cell_merger.py: CellMergerSlow')])

p('C03', 'Every 2D result is in canonical form',
  'Whatever sequence of operations made it, a 2D geometry consists of pieces with one outer ring and hole rings, all clockwise, with at least three distinct exact vertices and no repeated consecutive vertex. Every edge separates the inside from the outside, pieces are connected and have disjoint interiors, holes lie inside their outer ring and do not overlap, and the listed segments are exactly the edges of the rings.',
  ['inputs', 'histories'], 'all histories of constructions, set operations and bufferings',
  'Downstream code (DXF, projection, joints) relies on it, but no test looks at the form of a result.',
  [I + 'geom2d_simple_holes.py', I + 'arrangement2d.py', I + 'cell_merger.py'],
  [('outline assembly', I + 'arrangement2d.py: poly_cells'), ('edge cancellation', I + 'cell_merger.py: CellMergerSlow.add_cell')])

p('C04', '2D queries, constructors and conversions agree with the point set',
  'Point location, area, emptiness, splitting into pieces, outline and hole access, projection to a line, affine transformation and conversion from Shapely agree exactly with the point set of the geometry. Constructors give the set they describe: rectangles and polygons accept exact coordinates in the right orientation (or reorient on request) and refuse inexact coordinates, wrong orientation and degenerate polygons. Outline and hole access is refused for geometries that are not a single piece.',
  ['inputs'], 'all 2D geometries, query points, directions and affine maps',
  'Only a few examples exist; locations on boundaries, at vertices and in holes, reflections and degenerate projections are not sampled.',
  [I + 'geom2d_simple_holes.py', I + 'primitive2d.py'],
  [('locate', I + 'geom2d_simple_holes.py: locate'), ('project_to_1d', I + 'geom2d_simple_holes.py: project_to_1d'), ('from_shapely', I + 'geom2d_simple_holes.py: from_shapely')])

p('C05', 'Buffering grows or shrinks a 2D geometry by the radius, everywhere',
  'Buffering by a positive radius contains every point within 0.92 of the radius of the geometry and no point farther away than 1.001 of it; buffering by a negative radius keeps every point farther from the outside than 1.001 of it and none that is closer than 0.92 of it. This holds for holes, islands in holes, several pieces and any radius, including such that close holes, join pieces or make everything vanish. Buffering by zero leaves the set as it is.',
  ['inputs'], 'all polygonal sets and rational radii',
  'No test of buffer exists; kerf compensation and all joint heuristics depend on it.',
  [I + 'geom2d_simple_holes.py'], [('buffer', I + 'geom2d_simple_holes.py: buffer')])

p('C06', 'All intersections of a set of segments are found, exactly once',
  'For any finite set of line segments with exact coordinates, the enumeration of intersections yields every point where two or more of them meet (crossings, T-junctions, shared ends, ends of overlaps) exactly once, with exactly the segments that pass through it, and no other point.',
  ['inputs'], 'all finite sets of distinct non-degenerate segments',
  'The existing test samples random segments; multiple concurrency, horizontal, vertical and overlapping segments together are unbounded.',
  [I + 'scan2d.py', I + 'primitive2d.py'], [('sweep line', I + 'scan2d.py: all_segment_intersections')])

p('C07', 'The planar arrangement of polygon edges is the true subdivision',
  'For edges of closed polygons the arrangement has exactly the vertices and half-edges of the planar subdivision they induce, each half-edge belongs to exactly one cell that lies to its right, the numbers satisfy Euler\'s formula, and negative cells are exactly the outer outlines of connected components. The point given for each cell lies in the interior of the face the cell bounds, and each cell\'s container and nesting depth are the real ones. Merging any chosen set of faces, in any order, gives polygons covering exactly those faces.',
  ['inputs', 'schedules'], 'all finite sets of closed polygons, all subsets of cells, all merge orders',
  'Merge order depends on memory addresses, so one test run sees one order; nested and touching components are not sampled.',
  [I + 'arrangement2d.py', I + 'cell_merger.py'],
  [('half-edge walk', I + 'arrangement2d.py: __init__find_cells'), ('containers', I + 'arrangement2d.py: __init__find_negative_cells_outside'), ('merging', I + 'cell_merger.py: CellMergerSlow'), ('poly_cells', I + 'arrangement2d.py: poly_cells')])

p('C08', 'Spatial indexes never miss an item',
  'A bounding box contains exactly the points and meets exactly the boxes and segments that it geometrically should. A stabbing query on the interval index returns exactly the intervals that contain the value. A segment query on the quadtree returns every stored segment that meets the query segment, each at most once.',
  ['inputs'], 'all sets of intervals and segments, including duplicates, point intervals, queries at ends and outside, all thresholds',
  'The tests sample small random sets; missed items show only for items on internal borders.',
  [G + 'aabb.py', I + 'segment_tree.py', I + 'pmr_quadtree.py'],
  [('AABB', G + 'aabb.py: AABB'), ('stab', I + 'segment_tree.py: SegmentTree1D.stab'), ('find', I + 'pmr_quadtree.py: SegmentPMRQuadTree.find')])

p('C09', 'Exact numbers and planar primitives',
  'The fractional angle of a vector orders directions exactly as rotation does, advances by two per quarter turn, ignores length and is inverted by the unit square vector. Point-in-polygon location, polygon area, fractions along a segment and the general intersection of two lines are exact for all rational input. Conversion to exact numbers keeps the value of exact input and refuses floats, and text formatting and tuple conversion keep the values.',
  ['inputs'], 'all rational vectors, points, segments and polygons; all nested containers of numbers',
  'The tests sample small cases only.',
  ['plycutter/plytypes.py', I + 'frangle2d.py', I + 'primitive2d.py'],
  [('vector_frangle', I + 'frangle2d.py'), ('primitives', I + 'primitive2d.py'), ('FractionFromExact', 'plycutter/plytypes.py')])

p('C10', 'Sheets found in a model are the plates it consists of',
  'From a closed mesh of plates of the given thickness, sheet extraction finds one sheet for every plane slab that has material faces on both sides at that distance, with unit normals, offsets and a rotation that match the mesh. The faces, the area supported by both faces and the largest and smallest cross sections of each sheet are those of the solid, in the sheet\'s own coordinates. Only the requested sheets are returned when a selection is given, and models without parallel faces at the given thickness (within a tenth) yield none or are refused.',
  ['inputs', 'configurations'], 'all meshes made of plates, in any orientation and place, all thicknesses',
  'The one test model is a single shape; ground truth is never compared.',
  ['plycutter/create_sheetplex.py'],
  [('create_sheets', 'plycutter/create_sheetplex.py: create_sheets'), ('find_all_facets', 'plycutter/create_sheetplex.py: find_all_facets')])

p('C11', 'Both sheets of a joint share one joint coordinate',
  'Every two non-parallel sheets have one intersection, and parallel ones none. Its joint coordinate denotes the same place in space on either sheet: fingers made for an interval on one sheet and on the other lie in space in the same slice across the joint, span exactly the part of it that lies in the other sheet, and project back to that interval. Unions of intervals give the union of their fingers, and restricting the fractions across the joint restricts the fingers accordingly.',
  ['inputs'], 'all pairs of sheets at any angle and position, all interval sets',
  'No test looks at joint coordinates; an offset or sign error shows only in particular placements.',
  ['plycutter/sheetplex.py', 'plycutter/create_sheetplex.py'],
  [('create_inter_side', 'plycutter/create_sheetplex.py'), ('make_fingers', 'plycutter/sheetplex.py: InterSide.make_fingers'), ('project_to_1d', 'plycutter/sheetplex.py: InterSide.project_to_1d')])

p('C12', 'Decisions about joints stay consistent in every history',
  'Whatever sequence of choosing and unchoosing joint ranges and sheet areas is applied, what is chosen stays within what is possible, no place of a joint is ever given to both sheets, a choice takes the place from the other sheet\'s possible area, and what was chosen once stays chosen. Choosing something impossible or already taken, or unchoosing something chosen, is refused. Earlier states are not affected by later decisions, and the self-check accepts exactly the consistent states.',
  ['histories'], 'all sequences of choose and unchoose operations on any model, legal and illegal',
  'No test calls these operations; consistency is a property of histories.',
  ['plycutter/sheetbuild.py'],
  [('choose_interside', 'plycutter/sheetbuild.py: SheetBuild.choose_interside'), ('unchoose_interside', 'plycutter/sheetbuild.py'), ('_check', 'plycutter/sheetbuild.py: SheetBuild._check')])

p('C13', 'Heuristic steps only decide, and in the end all is decided',
  'Each step of joint making only adds to what is chosen and only removes from what is possible, never both chooses and forbids a place, and leaves the model data as it is. After the last step every place of every joint that was still possible is chosen by exactly one of the two sheets. Each finished sheet looks like what its sides have decided, includes the area that both of its faces need outside of the joints, excludes every place farther from one of its faces than the support radius, and has no loose piece that does not connect with the area supported by both faces.',
  ['inputs', 'histories', 'configurations'], 'all models and parameter settings the pipeline accepts, every step',
  'The one end-to-end test checks only that a file appears.',
  ['plycutter/heuristics.py', 'plycutter/sheetbuild.py', 'plycutter/canned.py'],
  [('steps', 'plycutter/heuristics.py'), ('create_sheetbuild', 'plycutter/sheetbuild.py')])

p('C14', 'Finished parts fit together and fill the model',
  'For a model the pipeline accepts, the finished parts placed in space lie within the plates they are cut from and do not overlap one another. Where all sheets meet at right angles they also lie within the model and leave no gap: each part of the joint is filled by exactly one sheet, also in corners where three sheets meet, in T and cross joints, and wherever in space the model is (gaps up to a hundredth wide, the slack of the heuristics, do not count).',
  ['inputs', 'configurations'], 'all models of plates, thicknesses, finger widths, seeds',
  'No test puts the parts together.',
  ['plycutter/heuristics.py', 'plycutter/sheetbuild.py', 'plycutter/sheetplex.py', 'plycutter/create_sheetplex.py'],
  [('multi-sheet corners', 'plycutter/heuristics.py: heuristic_multi_inter_single_decisions'), ('choose_the_ok_side', 'plycutter/heuristics.py'), ('make_fingers', 'plycutter/sheetplex.py')])

p('C15', 'Finger widths keep within the limits whenever that is possible',
  'Where a free stretch of a joint is divided at random, the fingers alternate between the two sheets, cover the stretch exactly and each have a width between the minimum and maximum, whenever a division with the needed parity exists; the ends belong to the sheet that alternation with the neighbouring decisions demands (an end without one counts as next to the first sheet). Otherwise one sheet gets the whole stretch. The division depends only on the input and the random seed.',
  ['inputs', 'configurations'], 'all stretches, minimum and maximum widths, neighbouring decisions and seeds',
  'Not tested at all; the parity and rounding cases are infinitely many.',
  ['plycutter/heuristics.py'],
  [('random_min_max', 'plycutter/heuristics.py'), ('single_fingers_random', 'plycutter/heuristics.py')])

p('C16', 'The DXF file contains every outline of every sheet, side by side',
  'The written DXF file contains, for every piece of every given sheet, one closed polyline per outer outline and per hole, with the shape, size and orientation of the geometry and only moved, all of a sheet by the same amount. Sheets do not overlap, are laid out left to right with a margin of 3 units between them at a common base line, and empty sheets take no part. No other drawing entities appear.',
  ['inputs'], 'all collections of sheets: any number, several pieces, holes, empty ones, any coordinates',
  'The test only checks that the file exists.',
  ['plycutter/writer.py', G + 'aabb.py'], [('write_dxf', 'plycutter/writer.py: write_dxf')])

p('C17', 'The command line writes exactly the parts the parameters demand',
  'Running the command on a mesh file writes a DXF file, at the given output path or next to the input with the suffix .dxf, that holds every sheet of the result, grown by the final dilation. Numeric options (thickness, finger widths, support radius, dilation, also as fractions) are taken exactly and have the documented defaults and effects. On failure (no sheets found, unreadable input, a step that fails, bad options) it reports an error and writes no output file and leaves an existing one alone.',
  ['inputs', 'configurations', 'fault_sequences'], 'all models, file names and option settings; failing input',
  'One example run with default options is tested.',
  ['plycutter/command_line.py', 'plycutter/canned.py', 'plycutter/writer.py'],
  [('main', 'plycutter/command_line.py: main')])

p('C18', 'The result does not depend on where or how the model is placed',
  'Moving a model, however far, rotating it or listing its triangles in another order gives the same sheets and joints: the same number of sheets with the same areas and cross sections, the same joints with the same possible ranges (up to the accuracy of buffering where a joint ends at the support radius), and finished parts that fit as before and have the same volume.',
  ['inputs'], 'all models, translations, rotations and triangle orders',
  'Tests use one placement.',
  ['plycutter/create_sheetplex.py', 'plycutter/sheetbuild.py', 'plycutter/sheetplex.py'],
  [('possible_along', 'plycutter/sheetbuild.py: create_sheetbuild'), ('create_sheets', 'plycutter/create_sheetplex.py')])

p('C19', 'Looking up and restricting the sheets of a model is consistent',
  'Every joint is listed by both of its sheets and by no other, looking up a side by its identifier returns that side, and the opposite of the opposite is the side itself. Restricting the model to some sheets keeps exactly those sheets and exactly the joints between two of them, unchanged, and does not alter the original.',
  ['inputs', 'histories'], 'all models and all subsets of their sheets, restricted repeatedly',
  'No test calls these functions (restricting failed on every model with joints).',
  ['plycutter/sheetplex.py', 'plycutter/create_sheetplex.py'],
  [('limit', 'plycutter/sheetplex.py: SheetPlex.limit'), ('interside', 'plycutter/sheetplex.py: SheetPlex.interside'), ('opposite', 'plycutter/sheetplex.py: InterSide.opposite')])

p('C20', 'A failing step is reported, never turned into a result',
  'When any step of joint making or the final self-check fails, the failure reaches the caller unchanged, and no result is produced; if the caller asked to get a result on failure, the result is marked as not ok and holds the last state that was completed, with the history up to it. A run without failure is marked ok and its history holds every state. The next run is not affected by an earlier failure.',
  ['fault_sequences', 'crash_points'], 'a failure at every step and at every decision inside a step, with and without return_on_failure',
  'No test makes a step fail.',
  ['plycutter/canned.py', 'plycutter/command_line.py'], [('canned_1', 'plycutter/canned.py: canned_1')])

p('C21', 'The same input and random seed always give the same parts',
  'For the same mesh, parameters and random seed the finished parts are identical as point sets, in every process, whatever the hash seed, however often the pipeline ran before in the process and however much other geometry was computed. Different random seeds give different fingers when there is room to choose.',
  ['inputs', 'schedules', 'histories'], 'all models and parameters; all hash seeds, memory layouts and earlier runs',
  'One run in one process cannot show a difference between processes.',
  ['plycutter/heuristics.py', 'plycutter/create_sheetplex.py', 'plycutter/canned.py', 'plycutter/sheetplex.py'],
  [('random state from the seed', 'plycutter/heuristics.py: single_fingers_random'), ('sorted iteration', 'plycutter/heuristics.py')])

p('C22', 'Each step of joint making decides what it is there for, and nothing else',
  'From any consistent state, each step of joint making has exactly its own effect. At the start a sheet can have what is within the support radius of both of its faces and in its largest cross section, a place of a joint is possible exactly where both sheets can have something across the joint, and what both faces support, grown by one, is chosen outside of such places. Places of a joint where one sheet has nothing (no largest cross section) within a hundredth beside the joint band are left to the other sheet if that one can have them. Loose pieces (of what is possible or chosen on a sheet) that do not connect with the area supported by both of its faces are ruled out, and no others. A place of a joint is ruled out for a sheet exactly where none of the sheet is possible across the joint, and area of a sheet that lies in its joints exactly where no joint there allows it. Where joints of a sheet overlap, every overlapping place is decided, all places that depend on each other in favour of the same sheet, the one that can have the largest area of them, and a corner that hardly touches what else its sheet has gets a finger beside it; nothing farther away than a finger is decided. Where only one of the two sheets is possible, it is chosen, except that stretches shorter than a fiftieth are ruled out instead. All open places that are left are then divided into fingers, and at last parts thinner than one that are not chosen are removed. What a step is not there for stays as it was.',
  ['inputs', 'histories', 'configurations'], 'all models, parameters and consistent states of decisions that a step can start from',
  'The one end-to-end test checks only that a file appears; no step is run by itself.',
  ['plycutter/heuristics.py', 'plycutter/sheetbuild.py', 'plycutter/sheetplex.py'],
  [('create_sheetbuild', 'plycutter/sheetbuild.py'), ('choose_obviously_irrelevant', 'plycutter/heuristics.py'), ('remove_loose', 'plycutter/heuristics.py'), ('update_intersection_ok', 'plycutter/heuristics.py'), ('update_sheet_ok', 'plycutter/heuristics.py'), ('heuristic_multi_inter_single_decisions', 'plycutter/heuristics.py'), ('choose_the_ok_side', 'plycutter/heuristics.py'), ('clean_up_thin_ok_parts', 'plycutter/heuristics.py')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
