#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be edited in one place)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


p('C01', 'Conservative weights are the exact overlap fractions',
  'For every pair of structured grids made of convex cells, the weight between a destination cell and a source cell is the area of their intersection divided by the area of the destination cell, to rounding accuracy (to a millionth of the size of the cell where corners and crossings are closer to each other than a millionth of that size without coinciding); a pair with an overlap of positive area always has its weight, and a pair without one has no weight different from zero. This holds whatever the orientation, the numbering, the position and the mutual alignment of the cells, including cells that share corners, edge pieces or whole edges.',
  ['inputs', 'configurations'], 'every pair of convex quadrilaterals / every pair of grids with convex cells (dimensions, orientation, coincident nodes and edges, shifts, scales)',
  'Tests compare the sum of weights for a handful of grids; coincident edges, touching corners, cells inside cells and both orientations are a combinatorial space they do not enter.',
  ['cpp/SgConserveInterp2D.h', 'cpp/SgQuadIntersect.h', 'cpp/SgTriangulate.h'],
  [('collect intersection points of two cells, with caches shared by cells', 'cpp/SgConserveInterp2D.h computeWeights'), ('area of the hull of the points', 'cpp/SgTriangulate.h getConvexHullArea')],
  ['weights obtained by iterating', 'result of applying unit source fields'])
p('C02', 'Conservative interpolation conserves the integral and keeps constants',
  'When the source grid covers the destination grid, a constant source field is interpolated to the same constant in every destination cell; when the destination grid covers the source grid, the integral of the interpolated field over the destination grid equals the integral of the source field. Partially covered destination cells get the fraction of the constant that corresponds to the covered part of their area.',
  ['inputs', 'configurations'], 'every pair of grids with convex cells of any shape (rectilinear, sheared, curvilinear, polar, of different sizes) and every source field',
  'Tests check a few grid pairs with one resolution each; the identity must hold for every relative placement and resolution, where one missed or doubled overlap breaks it.',
  ['cpp/SgConserveInterp2D.h', 'cpp/SgQuadIntersect.h', 'cpp/SgTriangulate.h'],
  [('loop over all dst/src cell pairs with caches', 'cpp/SgConserveInterp2D.h computeWeights'), ('sum of weights times field', 'cpp/SgConserveInterp2D.h apply')],
  ['result of applying'])
p('C03', 'Applying interpolation weights is linear, overwrites, and touches nothing else',
  'Applying conservative, nodal or flow weights sets every destination value that has weights to the weighted sum of the source values, whatever the destination array held before; destination values without weights and everything outside the destination array stay untouched. The source data and the weights are not changed, so applying again to the same data gives the same result, and the result is linear in the source data, for values of any size; an undefined or infinite source value with a weight is not hidden.',
  ['inputs', 'histories'], 'every weight set (including destinations partly or entirely off the source grid), every content of the two arrays, every number of applications',
  'Tests apply once, to a zero-initialised array of the right size, with one smooth field.',
  ['cpp/SgConserveInterp2D.h', 'cpp/SgNodeInterp2D.h', 'cpp/SgFlowInterp2D.h'],
  [('per-destination initialisation and accumulation', 'apply methods of the three interpolators')], ['destination and source arrays after the call'])
p('C04', 'Iterating over conservative weights visits every weight exactly once',
  'After the weights were computed, a traversal that starts from a reset, or from the wrap-around which follows the stop signal, visits every weight exactly once, in the same order, and signals the end exactly at the last one; reading the current entry never moves the traversal and a reset at any point restarts it. When no cells overlap the traversal ends at once and reports no weight.',
  ['histories', 'inputs'], 'every sequence of reset / get / next / apply / recompute operations on every weight set, including the empty one and destinations without any overlap',
  'Tests do one reset and one full loop on one weight set.',
  ['cpp/SgConserveInterp2D.h'], [('two-level iterator', 'cpp/SgConserveInterp2D.h reset/next/get')], ['reset, next, get'])
p('C05', 'Objects can be used again: results depend on the last inputs only',
  'For every object of the library, results depend only on the inputs that are current when they are computed, not on what the object computed before: setting new grids, polygons, lines, matrices or points, in any order, and computing again gives what a new object would give. Computing twice with the same inputs gives the same result as computing once, and input arrays of grids may be changed or freed once they have been handed over.',
  ['histories'], 'every sequence of set / compute / query operations up to a bound, with inputs that differ in size, position and validity, for each class',
  'Tests use every object once, with one input.',
  ['cpp/SgConserveInterp2D.h', 'cpp/SgNodeInterp2D.h', 'cpp/SgFlowInterp2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgFindOverlappingCells2D.h', 'cpp/SgQuadIntersect.h', 'cpp/SgQuadLineIntersect.h', 'cpp/SgQuadLineFlows.h', 'cpp/SgLinearSolve.h', 'cpp/SgTripolarGrid.h'],
  [('clearing of weights, indices and points before a computation', 'computeWeights / findSrcCellIndices / collectIntersectPoints / setGrid / reset'), ('copy of the inputs', 'setSrcGrid, setDstGrid, setGrid, setPolygonPoints')], ['all query functions'])
p('C06', 'Intersection points of two quadrilaterals describe their exact overlap',
  'For every two convex quadrilaterals the intersection points that are returned all lie in both of them, and they include every corner of the common region, so their convex hull is the intersection. If the two do not touch, no point is returned; exchanging the two, or renumbering the corners of either, describes the same region.',
  ['inputs'], 'every pair of convex quadrilaterals, in every corner numbering and orientation, with coincident corners, collinear edges and degenerate (triangular) cells',
  'Tests look at a few pairs and mostly at the number of points.',
  ['cpp/SgQuadIntersect.h', 'cpp/SgLinearSolve.h'], [('corner-in-cell test by two triangles', 'cpp/SgQuadIntersect.h isPointInCell'), ('edge to edge intersection', 'cpp/SgQuadIntersect.h collectEdgeToEdgeIntersectionPoints')], ['returned points'])
p('C07', 'Convex hull area is the area of the convex hull',
  'The reported convex hull area of any set of points in the plane is the area of their convex hull: zero for less than three points or collinear points, independent of the order of the points and of repetitions, and scaling with the square of the coordinates.',
  ['inputs'], 'every sequence of points, including repeated, collinear and interior ones, in every order',
  'Tests sample a few point sets in one order; the area is built incrementally and every order is another run of the construction.',
  ['cpp/SgTriangulate.h'], [('sorting, first non degenerate triangle, and incremental extension over visible boundary edges', 'cpp/SgTriangulate.h')], ['getConvexHullArea'])
p('C08', 'Line/quadrilateral intersection is the exact clip of the segment',
  'For every segment and convex quadrilateral the intersection points lie on the segment and in the cell, are ordered from the start to the end of the segment, and the first and the last are the ends of the part of the segment which is in the cell. A segment which does not touch the cell gives no points, and reversing the segment or renumbering the cell describes the same part.',
  ['inputs'], 'every segment against every convex quadrilateral: through corners, along edges, inside, touching, missing, in both directions and both orientations',
  'Tests use a few generic segments.',
  ['cpp/SgQuadLineIntersect.h', 'cpp/SgLinearSolve.h'], [('end points in the cell, intersections with the four edges, sorting by position', 'cpp/SgQuadLineIntersect.h collectIntersectPoints')], ['returned points'])
p('C09', 'Flow projections of a segment in a cell are exact edge weights',
  'For every segment inside a convex cell, reversing the segment changes the sign of the four projections, an edge of the cell projects with weight one on itself and zero on the other three, and for edge values which are differences of a function between corners the projected sum is the difference of the interpolated function between the end points of the segment. In parallelogram cells the projections are the exact integrals of the edge basis functions along the segment, and add up when the segment is subdivided.',
  ['inputs'], 'every segment with end points in every convex cell (any size, position, orientation, affine or not), including segments along edges, diagonals and of zero length',
  'Tests use one unit square and a few segments.',
  ['cpp/SgQuadLineFlows.h', 'cpp/SgFindPointInCell.h'], [('index position of both end points by Newton iteration and closed form of the integrals', 'cpp/SgQuadLineFlows.h computeProjections')], ['getProjection', 'return code of computeProjections'])
p('C10', 'Flow interpolation is exact for gradients and counts every piece once',
  'For every source grid of convex cells and every polyline inside it, the interpolated flux of a field which is the difference of a function between the ends of each source edge equals the difference of the function between the ends of each segment, including segments that run along grid lines, through nodes or along the border. On grids of parallelograms the flux of any edge field is the exact sum over the pieces of the segment in each cell; splitting a segment adds the fluxes, reversing it changes the sign, and a segment partly outside collects the flux of the inside part only.',
  ['inputs', 'configurations'], 'every grid (dimensions, shear, curvilinear, orientation, scale) and every segment (through nodes, along grid lines, partly outside, several cells) of the polyline',
  'Tests use one uniform grid and one line; grid-line and node crossings are decided by tolerances no sample exercises.',
  ['cpp/SgFlowInterp2D.h', 'cpp/SgQuadLineIntersect.h', 'cpp/SgQuadLineFlows.h'], [('clipping per cell, attribution of each part to one cell', 'cpp/SgFlowInterp2D.h computeWeights'), ('edge indexing', 'cpp/SgFlowInterp2D.h apply')], ['result of applying'])
p('C11', 'Nodal interpolation reproduces the multilinear interpolant',
  'For every source grid and every target point in it, nodal interpolation gives the value at that point of the cell-wise bilinear interpolant: source nodes are reproduced exactly, functions linear in the coordinates are reproduced, constants stay constant and results stay within the range of the source values of the containing cell. Target points outside the domain leave their destination value untouched.',
  ['inputs', 'configurations'], 'every structured grid (dimensions, spacing, orientation, shear, curvilinear) and every placement of target points: nodes, edges, borders, interiors, outside',
  'Tests interpolate a smooth field on a few grids at generic points.',
  ['cpp/SgNodeInterp2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgSideIterator.h'], [('Newton search with restart from the sides', 'cpp/SgNodeInterp2D.h computeWeights'), ('multilinear weights', 'cpp/SgFindPointInCell.h getSrcIndicesAndWeights')], ['result of applying'])
p('C12', 'Point location terminates and its status is truthful',
  'From every start position the search for a point ends within the requested number of iterations; a converged status means that the reported index position is in the index range and maps to the target within the requested tolerance, an outside status is given exactly to targets outside the bounding box of the grid, and position, error and error history always agree with the index position. On affine grids the search finds every point from any start; on rectilinear grids it does from the middle of the cell of the target, and from any start in that cell when neighbouring cells differ in size by less than a factor of four. On sectors of annuli (up to one radian, with spacing that grows at most like a square in either direction, or up to 1.5 radians evenly spaced) it finds every point from the middle of the index range.',
  ['inputs', 'histories'], 'every grid in one, two and three dimensions, every target (inside, border, outside), every start position, iteration limit and tolerance, every interleaving of stepping and querying',
  'Tests run a few searches from one start and check convergence only.',
  ['cpp/SgFindPointInCell.h', 'cpp/SgLinearSolve.h'], [('Newton iteration with truncation to the domain', 'cpp/SgFindPointInCell.h next'), ('restart', 'cpp/SgFindPointInCell.h reset')], ['next', 'getIndices', 'getPosition', 'getError', 'getErrorHistory'])
p('C13', 'Overlapping-cell search misses no cell',
  'For every polygon and rectilinear grid, and every affine grid which contains the polygon, the reported cells include every grid cell whose interior the polygon (or a single point or segment) enters. Every reported index is the flat index of an existing cell, no index is reported twice, and a polygon beside the grid yields only valid indices.',
  ['inputs', 'configurations'], 'every grid (dimensions, spacing, direction of the axes), every polygon (points, segments, polygons; inside, across the border, containing the grid, outside)',
  'Tests use one grid and one polygon.',
  ['cpp/SgFindOverlappingCells2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgBoxIterator.h'], [('index box around the index positions of the polygon vertices', 'cpp/SgFindOverlappingCells2D.h findFloatIndexBoxOfPolygon, findSrcCellIndices')], ['getNumberOfSrcCellIndices', 'getSrcCellIndices'])
p('C14', 'Octree boxes partition the domain and contain their points',
  'For every set of points and number of levels, the boxes of each level tile the bounding box of the points, each box is the union of its children, and the key of a point names, at every level, a box which contains the point and is nested in the box of the previous level. Points outside the domain get the key of the nearest border box.',
  ['inputs', 'configurations'], 'every point set in one to three dimensions, every number of levels, every query point and level',
  'One test, of one point set.',
  ['cpp/SgOctreePoints.h'], [('recursive refinement and key computation', 'cpp/SgOctreePoints.h refineOctree, getKey, computeLoHi')], ['getKey', 'getLo', 'getHi'])
p('C15', 'Index iterators enumerate their range exactly once, in row-major order',
  'For every index box, the flat index and the index set map to each other one to one over the whole box, the last index varies fastest, and the number of elements is the product of the extents. The iterator over the sides of a box visits each combination of low, middle and high sides exactly once and stops after the last one, from any reset.',
  ['inputs', 'configurations', 'histories'], 'every number of dimensions, low corner (negative too) and extent; every sequence of next/reset/get',
  'Tests check a few boxes.',
  ['cpp/SgBoxIterator.h', 'cpp/SgSideIterator.h'], [('mixed radix conversion', 'cpp/SgBoxIterator.h getElement, getIndex'), ('base three conversion', 'cpp/SgSideIterator.h')], ['getElement', 'getIndex', 'getNumberOfElements', 'next', 'get'])
p('C16', 'Linear solves are correct, repeatable and truthful about singularity',
  'For every well-conditioned system the solution satisfies the equations (square), has minimal residual (more equations than unknowns) or has minimal norm (fewer equations), for matrices given row by row. The residual reported after a solve is the sum of the absolute residuals of the current equations. A system with an equation all of whose coefficients are zero (or, with more equations than unknowns, an unknown all of whose coefficients are zero) is reported as singular. Matrix and right hand side can be replaced in any order between solves.',
  ['inputs', 'histories'], 'every small system (1 to 4 rows and columns) with entries of a finite set, every sequence of setting matrix / right hand side and solving',
  'Tests solve two systems once.',
  ['cpp/SgLinearSolve.h'], [('call of LAPACK least squares on the transposed storage, kept copies of matrix and right hand side', 'cpp/SgLinearSolve.h')], ['getSolution', 'getResidual', 'return code of solve'])
p('C17', 'Simplices keep their points and connectivity',
  'A line, triangle or tetrahedron returns the points it was made of, in order and independent of the arrays they came from, and its edges (and faces) list every pair (triple) of its vertices exactly once with valid indices.',
  ['inputs', 'histories'], 'every choice of points (coincident ones too), every order of queries, several objects alive at the same time',
  'Tests print a few numbers.',
  ['cpp/SgLine.cpp', 'cpp/SgTriangle.cpp', 'cpp/SgTetrahedron.cpp'], [('construction', 'the _new functions')], ['getPoint', 'getEdge', 'getFace', 'getNumberOf...'])
p('C18', 'Grid generators produce the documented grids',
  'For every size and parameter, the rectangular generator fills exactly the requested nodes, evenly spaced from the low to the high corner, the polar generator puts its nodes on evenly spaced circles and rays about the given center with a closed seam, and the rotated pole generator yields finite latitudes and longitudes in range that are the image of the regular grid when the sphere is turned by the displacement in latitude and then by the displacement in longitude. The last index varies fastest and nothing else is written.',
  ['inputs', 'configurations'], 'every pair of dimensions, corner, center, radius and pole displacement',
  'Tests generate one grid each and look at a few values or at none.',
  ['utils/createGrids2D.cpp'], [('loops over nodes', 'utils/createGrids2D.cpp')], ['coordinate arrays'])
p('C19', 'Tripolar grids are valid grids that cover the sphere exactly once',
  'For every size and cap position, a tripolar grid has finite latitudes and longitudes in range, is regular below the cap, joins the cap continuously, is closed in longitude and folded onto itself along the last row, and its cells are all oriented the same way and cover the sphere exactly once (when the border of the cap is further from the south pole than half of the longitude spacing; coarser cells are not determined by their nodes). Asking for the grid again gives the same grid.',
  ['inputs', 'configurations', 'histories'], 'every pair of dimensions and every cap index which leaves at least one row in the cap',
  'One test prints one grid and checks nothing.',
  ['cpp/SgTripolarGrid.h'], [('regular part and two half caps', 'cpp/SgTripolarGrid.h getGrid')], ['getGrid'])
p('C20', 'Command line parsing gives each option its value',
  'After parsing, every option given on the command line has the value that follows it (the last one if given several times), every flag is flipped once for each time it occurs, all others keep their default, and lists are split at commas; the order of different options does not matter. A command line with an unknown option is refused, negative numbers are values rather than options, and asking for an option that does not exist yields the fallback (lowest number, empty string or list, false). The help text names every option with its description.',
  ['inputs', 'histories'], 'every sequence of arguments up to a bound over every kind of option, value and unknown name, and every order of definitions',
  'Tests parse one command line.',
  ['utils/CmdLineArgParser.cpp', 'utils/CmdLineArgParser.h'], [('validity scan and one scan per option', 'utils/CmdLineArgParser.cpp parse'), ('typed access', 'utils/CmdLineArgParser.cpp get')], ['parse', 'get'])
p('C21', 'The Python class gives the same results as the library, for any array',
  'Interpolating through the Python class gives the same values as the compiled library for the same grids and data, whatever the type, order and strides of the arrays, with zero in cells that are not covered. Calls in the wrong order raise an error instead of using missing or outdated weights, results returned earlier are not changed by later calls, and input arrays are not modified.',
  ['histories', 'inputs'], 'every sequence of setting grids, computing and applying up to a bound, with grids of different sizes, every memory layout and element type',
  'There is no test of the Python class.',
  ['py/conserveInterp2D.py', 'py/__init__.py', 'cpp/SgConserveInterp2D.cpp'], [('conversion of arrays and state flags', 'py/conserveInterp2D.py')], ['ConserveInterp2D methods'])
p('C22', 'No invalid memory access, no undefined read, no leak',
  'No sequence of documented calls reads or writes outside of the memory handed in or allocated, uses memory after it was freed, depends on uninitialised memory, or performs undefined integer or pointer operations. Deleting an object releases everything that was allocated on its behalf.',
  ['histories', 'inputs'], 'every bounded sequence of calls on every class, with inputs at the edges (touching, degenerate, empty results, outside, smallest grids), in every order of deletion',
  'Tests run each class once without any memory checking.',
  ['cpp', 'utils'], [('ownership in constructors and destructors', 'all _new and _del functions'), ('bounds of all index arithmetic', 'all classes')], ['sanitizer reports', 'number of live heap blocks', 'results under different initial memory contents'])
p('C23', 'Objects are independent of each other, under any interleaving and in threads',
  'Using one object never changes the results of another one: any interleaving of the calls on two objects, of the same or of different classes, gives each of them the result it has alone. Objects used by different threads, each by one thread only, do not race.',
  ['schedules', 'histories'], 'every interleaving of the call sequences of two objects of every pair of classes; every pair of classes in two threads',
  'Tests use one object at a time, in one thread.',
  ['cpp'], [('all state is held in the object', 'all classes')], ['results of all query functions', 'race detector reports'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
print(len(P))
