"""Source of /verif/properties.jsonl:  python3 tools/mkprops.py  rewrites it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


G, T, M, B = 'x7/geom/geom.py', 'x7/geom/transform.py', 'x7/geom/model.py', 'x7/geom/bezier.py'
A, AS, D, C, V, U = ('x7/geom/anim.py', 'x7/geom/anim_simple.py', 'x7/geom/drawing.py', 'x7/geom/colors.py',
                     'x7/geom/vec_field.py', 'x7/geom/utils.py')

prop('C01', 'Transforms compose exactly as the affine maps their calls name',
     '''After any sequence of translate, scale, rotate (clockwise in right/up axes), rotate_ccw, rotate_about, scale_bbox, canvas_fit,
     compose, compose_outer, set_matrix, reset, copy and construction from a 6-tuple, transforming a point gives its image under the
     named maps applied in call order (compose alone applies its argument before the existing map). The scalar, Point, Point-list,
     tuple-list and flattened forms agree with each other, and the 6-tuple, scale factors, scaled widths and simplify() factors describe
     that same map. Transforms passed as arguments or copied stay unchanged and never become linked to the receiver.''',
     ['histories', 'inputs'], 'every sequence of transform operations on any number of transforms, every point',
     '''Tests check each operation once on one or two matrices, so order of composition, aliasing between two transforms and agreement of
     the five ways of transforming points are sampled at a handful of histories.''',
     [T], [('pre_dot_eq / post_dot_eq composition', T), ('copy of the 3x3 matrix on set_matrix/copy', T)],
     [('current mapping', 'affine map of the transform', T)],
     ['Transform.transform/transform_pt/transform_pts', 'Transform.as_6tuple', 'Transform.scale_vals', 'Transform.transform_width',
      'Transform.simplify'])
prop('C02', 'untransform always undoes the current mapping',
     '''At every point of every history of a transform with an invertible mapping, untransform, untransform_pt, untransform_pts and the
     reported inverse undo the mapping in force at that moment: untransforming the image of any point gives that point back. This holds
     whatever was done and read before, including earlier reads of the inverse followed by any operation that changes the mapping.''',
     ['histories', 'inputs'], 'every interleaving of inverse reads with mapping-changing operations',
     '''A cached inverse can only go stale for particular orders of read, mutate, read; the tests read the inverse at the end of a few
     fixed sequences.''',
     [T], [('cached inverse reset by each mutator', T)], [('cached inverse', 'inverse of the mapping, or unset', T)],
     ['Transform.untransform/untransform_pt/untransform_pts', 'Transform.inverse', 'DrawingContext.unscale_pt'])
prop('C03', 'push/pop and with-blocks restore the saved transform, last in first out',
     '''Every pop, and every exit of a "with transform.push()" block whether it ends normally or by an exception, restores exactly the
     mapping and inverse that were in force at the matching push, to any nesting depth, and the exception is propagated. Popping, or
     entering a with statement, with nothing saved raises EmptyStackError and changes nothing. No other operation alters what is saved,
     and no two transforms (copies included) share saved mappings.''',
     ['histories', 'fault_sequences'], 'every nesting of push, pop, with-blocks, exceptions and mutations over several transforms',
     '''Tests cover one or two levels with one operation inside; they do not mix exceptions, copies, resets and unbalanced pops.''',
     [T], [('stack of matrix copies', T), ('__enter__/__exit__', T)], [('stack', 'saved mappings', T)],
     ['Transform.push/pop/__enter__/__exit__', 'EmptyStackError'])
prop('C04', 'Dependent points and vectors always follow their bases',
     '''A PointRelative is always at its base's present location plus its own offset, a PointCalc always at the present anchor of its base
     plus scale times that base's present offset, and a VectorRelative is always the present difference of its two points, through any
     chain of dependencies and after any later moves of the points involved. Copies of dependent points keep depending on the same base,
     while fixed(), rounding, midpoints and results of arithmetic are snapshots that no later move changes.''',
     ['histories'], 'every dependency graph of points/vectors and every history of moves and reads',
     '''Tests evaluate a relative point once or twice after one move; caching or snapshot errors need a chain, a read, a move and a second
     read to show.''',
     [G], [('xy() recomputed from base on every read', G), ('fixed()', G)], [('base links', 'what a point is relative to', G)],
     ['xy/x/y/v/iteration/arithmetic/equality of every point and vector kind'])
prop('C05', 'Point and vector algebra yields the right kind and value, without side effects',
     '''Point minus point is a Vector, point plus or minus vector (either order for plus) is a Point, vector plus or minus vector and vector
     times or divided by a number is a Vector, with component-wise values; point plus point, point times number and vector minus point are
     refused with TypeError. dot, cross, normal, rotate (counter-clockwise), unit, length, angle, mid, negation and rounding have their
     documented values, and no operation ever modifies its operands. Point sequences parse to one entry per point for every mix of points,
     pairs and bare coordinates, and malformed sequences raise ValueError.''',
     ['inputs', 'histories'], 'every combination of point/vector kinds, values and operations, and every chain of them',
     'Tests check one value per operator; they do not cover each mix of point kinds or that operands and earlier results stay unchanged.',
     [G], [('operator overloads and add_vector/sub_vector dispatch', G), ('BasePoint.parse', G)], [],
     ['operators of Point/PointRelative/PointCalc/Vector/VectorRelative', 'BasePoint.parse'])
prop('C06', 'Bounding boxes obey set algebra and consistent predicates',
     '''A BBox denotes the closed rectangle spanned by its corners in any order, or nothing (BBox(None)): + is the smallest box holding both
     (none is neutral), grow adds one point, intersection is the common part or none, and expand, transformed, corners, center, width,
     height and area are those of that rectangle. contains means other lies inside or on the edge, overlaps means the interiors meet,
     contains_pt is strictly inside, touches_pt is on an edge but not a corner, touches_side shares part of an edge and touches shares an
     edge or corner, without overlapping. For none boxes contains and overlaps raise ValueError, the touch predicates are False, and no
     operation except grow and sort modifies a box.''',
     ['inputs', 'histories'], 'all pairs/triples of boxes (empty, degenerate, none) and all sequences of grow and union',
     'Tests probe a few dozen hand-picked pairs; the laws relate every pair of boxes and operations to one another.',
     [G], [('BBox methods', G)], [('xl,yl,xh,yh', 'extent, or None', G)], ['BBox'])
prop('C07', 'Line and segment intersection, closest point and polygon area are correct',
     '''For non-parallel lines intersection returns the one point lying on both, and parallel lines raise ParallelLineError; closest returns
     the foot of the perpendicular; adding or subtracting a vector moves a line. segment_intersection never reports a point off either
     segment, reports the crossing point and both parameters whenever the segments properly cross (or an end of one lies on the other
     and their boxes overlap), and returns None when segments of different direction do not meet. polygon_area is the signed area (positive counter-clockwise) of every polygon, for any starting
     vertex.''',
     ['inputs'], 'all pairs of lines/segments and all polygons',
     'Tests use a few segments; orientation, order of arguments, axis-parallel and end-point cases span all inputs.',
     [G], [('Line methods', G), ('polygon_area', G)], [], ['Line', 'polygon_area'])
prop('C08', 'Splitting curves and adding control points never changes the drawn shape',
     '''Splitting a Bezier segment at t gives two segments that trace exactly the original one, the first over 0..t and the second over t..1,
     without touching the original control points. Adding control points to a curve, any number of times, on closed and open curves, adds
     exactly one each time, keeps every existing control point's position, (cyclic) order and sharpness, and keeps the traced shape,
     and for open curves its start and end. Open curves have at least two control points.''',
     ['inputs', 'histories'], 'all curves (open/closed, any number of control points) and all split/add sequences',
     'Tests add a point to one closed curve; ties in segment length, open curves, wrap-around and repeated additions are not reached.',
     [B, M], [('bez_split', B), ('ElemCurve.add_one', M)], [('control_points', 'list of control points', M)],
     ['bez_split', 'ElemCurve.add_one', 'ElemCurve.paths'])
prop('C09', 'Flattened curves lie on the curve, join without gaps or repeats, and close',
     '''Flattening a Bezier segment into n steps gives n+1 points, exactly the curve points at t = i/n, starting and ending exactly at the
     ends. Flattening a whole curve gives each segment's points in order with shared joints emitted once; a closed curve returns to its
     first point, an open one stops at its last control point, for any transform and step count.''',
     ['inputs'], 'all control-point lists, open/closed, step counts and transforms',
     'Tests compare a few fixed outputs; one-point curves, open curves, other step counts and transforms are not covered.',
     [B, M], [('bez', B), ('bez_path', B), ('ElemCurve.paths', M)], [], ['bez', 'bez_path', 'ElemCurve.paths'])
prop('C10', 'Control points stay coherent under transforms, reversal, copying and restore',
     '''Transforming a control point by an affine transform maps its center and both handle ends and keeps its kind; under a non-linear
     transformer a very-smooth point keeps equal and opposite handles, a smooth one keeps collinear opposite handles of the mapped
     lengths, and any other kind is mapped exactly. Reversing swaps the handles (twice is identity, and a reversed list traces the curve
     backwards), copies and restored control points are equal and independent, and the box covers center and both handle ends.''',
     ['inputs', 'histories'], 'all control points, kinds, transformers and histories of mutation after copying',
     'Tests try a few transforms; independence after copying and non-linear smoothing per kind need a combination of inputs and mutations.',
     [B], [('ControlPoint.transform', B), ('ControlPoint.copy/restore/fixed', B)], [], ['ControlPoint'])
prop('C11', 'Transforming an element yields exactly the transformed outline',
     '''For every kind of element and every affine transform under which the kind is closed, the outline (and control points) of
     elem.transform(matrix) drawn through any context equals the outline of elem with matrix applied, whatever the element's own
     transform. Neither the source element nor the matrix changes, and later changes to the result never show in the source.''',
     ['inputs', 'histories'], 'all element kinds, own transforms and matrices (translation, scale, quarter and general rotation, mirror)',
     'Tests compare a few dumps; own transforms combined with mirrors, rotations and non-uniform scales are not sampled per kind.',
     [M], [('Elem.transform of each kind', M), ('Transform.simplify', T)], [], ['Elem.transform', 'Elem.paths', 'Elem.control_paths'])
prop('C12', 'Snapshots are exact and independent: undo restores what was copied',
     '''A copy of any element made of plain points is equal to it, and no later edit of either one (transform, control points, corners,
     radius, children added or removed, names, pens) shows in the other, to any depth. Restoring an element from a snapshot makes it equal
     to the state at the moment of the copy after any edits in between, leaves the snapshot reusable, and does not link the two. (Named
     points of a group are shared handles and not part of snapshots; the parts of a shape with holes take its pen and brush.)''',
     ['histories'], 'every history of copy, edit and restore over every element kind and nesting',
     'Tests restore right after copying; aliasing shows only with a later in-place edit of a nested part and a second restore.',
     [M], [('Elem.copy/restore of each kind', M)], [], ['Elem.copy', 'Elem.restore', 'equality and outlines'])
prop('C13', 'Every traversal of a model agrees on which elements are where',
     '''For every nesting of groups and elements with holes, iterating elements with their matrix, iterating transformed elements, paths,
     control paths, as_curves and bbox all describe the same elements in the same order at the same places, each located by the product of
     the transforms of its ancestors, with names forming the dotted path from the root. Hidden groups draw nothing at any depth (they are
     still iterated and measured); a shape with holes draws its edges once each and fills the outside plus each hole, and looking up
     outside.NAME or inside.NAME in it gives the part. The bounding box encloses what is drawn and lies within the box of the control
     points.''',
     ['inputs', 'programs'], 'all model trees (depth, order, transforms, hidden flags)',
     'Tests traverse one fixed model, depth two, mostly identity transforms.',
     [M], [('Group/ElemWithHoles traversals', M)], [], ['iter_elems', 'iter_elems_transformed', 'paths', 'control_paths', 'as_curves', 'bbox'])
prop('C14', "Drawing, traversing and transforming leave the caller's context as found",
     '''Whatever is drawn, iterated, measured or transformed, and however it ends (completion, an exception from a part of the model or the
     drawing target, or an iteration abandoned part-way and closed), the caller's matrix, its saved mappings and the context's drawing
     target and shadow colour are afterwards exactly what they were.''',
     ['histories', 'fault_sequences'], 'all models, operations, failure points and abandonment points',
     'Tests never inject failures during drawing nor abandon iterators.',
     [M, D], [('with matrix.push() discipline', M), ('try/finally in shadow_draw', D)], [('matrix + stack', 'caller context', T)],
     ['DrawingContext.matrix', 'Transform.push/pop', 'DrawingContext.shadow_draw'])
prop('C15', 'Group namespace: names are unique, lookups find exactly what was added',
     '''After any sequence of add, sub-grouping and replace, each element of a group is found by lookup under exactly its own current name
     (dotted paths through sub-groups), no two share a name, no add ever displaces or loses an element, and order of addition is kept.
     Replacing puts the replacement exactly where the replaced element was at every depth and reports how many were replaced; a refused
     add changes nothing, a refused replace loses no element. Named points are found by name and never silently overwritten.''',
     ['histories'], 'all sequences of add/add_pt/group/replace/lookup including clashes',
     'Tests perform a couple of adds; name clashes, nested replaces and refused operations are not explored.',
     [M], [('Group.add/lookup/replace/add_pt', M)], [('elems', 'name to element', M)], ['Group.add', 'Group.lookup', 'Group.replace'])
prop('C16', 'A dumped model evaluates back to an equal model',
     '''For every model, executing the text produced by dump() rebuilds a model with the same elements, names, nesting, geometry, transforms,
     pens, closed and hidden flags and named points (children ordered by name), whether or not shared values are factored into variables;
     dumping the rebuilt model gives the same text, and dumping changes nothing. Test data recorded with models, lists of them or rows of
     name, element and transform in it load back the same.''',
     ['inputs', 'programs'], 'all models',
     'Tests compare dump text of one fixed model and never evaluate it.',
     [M], [('dump / dump_elem / DumpContext', M), ('__repr__ of values', G)], [], ['Elem.dump', 'GroupBuilder.dump', 'DumpContext.output'])
prop('C17', 'A point animation depends only on the current time, not on history',
     '''Whatever sequence of times was set before, after update(t) an animated point is where the animation defines it for t alone: on the
     straight line from its original place to the (present) target, there and back sinusoidally, on the circle around its original place,
     or where the supplied function says; at t=0 linear animations are exactly at the original and at t=1 exactly at the target. Only the
     animated points move, and all animations of a holder are applied in order of addition.''',
     ['histories'], 'all sequences of update times (any order, repeated, outside 0..1) and moving targets',
     'No test covers animations.',
     [A], [('orig remembered at construction', A)], [('orig', 'place of the point at construction', A)], ['Animation*.update', 'AnimationHolder'])
prop('C18', 'Morphs start at the source, end at the target, and can be undone',
     '''A morph shows exactly the source shape at t=0 and the target shape at t=1 and interpolates control points in between, for any order of
     updates; a multi-step morph shows each given curve at its time, blends neighbours in between and holds the ends outside. Source and
     target keep their shapes even when points had to be added; a time function giving None moves the morph out of sight and the next
     number brings it back. While morphing, the model shows the morph in place of the source, and restore puts the source back there.''',
     ['histories', 'inputs'], 'all source/target curves with differing numbers of points and all update histories',
     'No test covers morphs.',
     [A], [('Morph', A), ('MorphMultiStep', A), ('ElemCurve.add_one', M)], [], ['Morph.update/restore', 'MorphMultiStep.update/restore'])
prop('C19', 'Time-shaping functions have their documented values everywhere',
     '''ramp_up, ramp_down and interpolate are piecewise linear through their points and constant outside, also component-wise for (x, y)
     times; sin, cos, sin_cos and periodic give trig(tau*frequency*t + radians(offset))*scale + shift; xy combines two functions, identity
     and identity_xy pass time through, and hide_if gives None exactly where the value is below the threshold. Every function depends on
     its argument alone, for any composition of them.''',
     ['inputs'], 'all times (inside, at and outside break points) and parameters',
     'No test covers these functions.',
     [A], [('Animation static functions', A)], [], ['Animation.*'])
prop('C20', 'Palettes, pen replacement and stroke widths follow the documentation',
     '''Draft palettes give every shape kind a thin outline without fill; production palettes give edge, filled, clear, edge_filled and
     edge_clear exactly their documented pen and brush. Replacing pen, brush or width yields a new value with only that part changed
     (shape kinds without a pen stay without) and never alters the original; positive widths are pixels, negative widths scale with the
     transform, and filled/stroked/colours report exactly what is present.''',
     ['inputs', 'histories'], 'all colours, widths, kinds and replacement sequences',
     'Tests build palettes only incidentally.',
     [C], [('PensByShape.make', C), ('replace', C), ('stroke_width', C)], [], ['Pen', 'PenBrush', 'PensByShape', 'ColorsByShape'])
prop('C21', 'Animations produce exactly one frame per step, at the right time, in order',
     '''SimpleAnimation.animate() records exactly steps+1 frames, the i-th drawn at t_low + i*(t_high-t_low)/steps through a context that maps
     the model box onto the image with y going up; a step driven by hand with next_step records exactly one frame. Builder.build_all(n) yields n frames for
     t = i/n, each with all animations updated to t before the model is drawn once, and leaves the builder's matrix as found.''',
     ['histories', 'inputs'], 'all step counts, time ranges, image/box sizes and repeated runs',
     'No test covers frame production.',
     [AS, A], [('SimpleAnimation.animate/next_step/finish_step', AS), ('Builder.build_one/build_all', A)], [],
     ['SimpleAnimation.images', 'Builder.images'])
prop('C22', 'Vector fields interpolate their grid values and displace points accordingly',
     '''On every grid node a vector field gives the stored vector, between nodes the bilinear interpolation, outside the mesh the linear
     extrapolation, and transforming a point, list of points or tuples or flattened list displaces each by the vector found there. scaled,
     normalized and copy give new fields with the scaled, max-length-one (a field of zeros stays) and equal values and leave the original
     unchanged; smoothed gives at each node the mean of those up to two away in either direction, the node itself counting twenty times,
     the longest then one long; vectors stored or assigned later show in every later lookup; an arrow plot shows at every place the vector found there.''',
     ['inputs', 'histories'], 'all grids, field values and points (nodes, cells, edges, outside)',
     'Tests use a uniform random field on one mesh and a couple of points.',
     [V], [('RegularGridInterpolator lookup', V), ('Transformer.transform_pts', T)], [], ['VectorField', 'Mesh'])
prop('C23', 'Arc, circle and path helpers give the documented points',
     '''arc gives evenly spaced points on the circle from the start to the end angle in the requested direction, with the requested number of
     points; arc2p gives an arc of the requested radius from the start point to the end point with its centre on the requested side (and
     refuses impossible ones); circle, cross and plus lie around their center at radius r. path_rotate, path_rotate_ccw, path_translate,
     path_to_xy and path_from_xy map every point and keep order and count, and min_rotation is the signed rotation in [-180, 180) that
     turns source onto target.''',
     ['inputs'], 'all radii, centers, angles (negative, beyond 360), directions and paths',
     'Tests cover single examples.',
     [U], [('arc/arc2p/min_rotation/path_*', U)], [], ['x7.geom.utils functions'])
prop('C24', 'Self-intersection decomposes a closed curve into loops that partition it',
     '''Decomposing a closed self-crossing curve gives loops that turn onto the other strand at every crossing and whose pieces together
     trace every piece of the original exactly once in its own direction, so that no loop passes a crossing twice and signed areas add up to
     that of the original; corners are sharp; a curve without crossings gives no loops. The input curve is not changed.''',
     ['inputs'], 'all closed curves with transversal crossings at distinct points (edges that run level or upright aside: the bezier package misses crossings there)',
     'Tests pin a few outputs; conservation is never checked.',
     [B], [('bez_self_intersect', B), ('BziGraph', B)], [('graph', 'crossings and edges', B)], ['bez_self_intersect', 'ElemCurve.self_intersect'])
prop('C25', 'Drawing an element issues exactly the fills and strokes its pens call for',
     '''Drawing an element through a context fills each filled path with its brush colour (the shadow colour in shadow mode unless the brush
     is transparent) and strokes every stroked path with its pen colour, filled ones as a closed line, with the pen width in production
     mode (at least 1 pixel, scaled when negative) and 1 otherwise, in model order. Control points are drawn only when enabled.''',
     ['inputs', 'configurations'], 'all elements, pens, modes (prod, debug, shadow, show control points) and transforms',
     'Tests compare one rendered image.',
     [M, D], [('Elem.draw', M), ('DrawingContext', D)], [], ['calls on DrawingContext.draw'])
prop('C26', 'Models built in code are what the builder was asked for',
     '''A GroupBuilder puts every rectangle, rounded rectangle, ellipse, curve or sub-group it makes, in order, into its own group, under the
     name asked for (or the one the group gives), at the corners or through the live points given, with the pen that its palette has at that
     moment for the kind of shape asked for, the builder's own kind by default, or with the pen given outright. Builders of sub-groups take
     over palette and kind unless told otherwise; curves are closed by default exactly if their pen fills; what is refused (unknown kinds,
     filled open curves, names with dots, points under a name in use) changes nothing. rotate_about_center adds an independent copy turned
     about the centre of the bounding box as NAME_rEXTRA, with a mark NAME_cEXTRA if asked for. A builder looks up, lists, replaces, draws
     (nothing once hidden) and dumps exactly what is in its group.''',
     ['histories', 'inputs'], 'all sequences of building calls on any number of builders, palettes changed on the way, points moved later',
     'Tests build one fixed model each and compare a picture.',
     [M, C], [('GroupBuilder', M), ('PensByShape', C)], [], ['GroupBuilder', 'Group.elems', 'drawing calls'])

prop('C27', 'Canvases show what was painted, and finished frames keep it',
     '''A drawing context paints polygons, lines and its grid at the image of their points under its matrix (in whatever form the points
     are given; fill or outline None: none), over what was painted before and over the background and any shadow, and never changes the
     image it was given as background. unscale_pt undoes scale_pt; image() is the whole composition, and cropped to a box in model
     coordinates (the context's own is fixed when it is made) it holds exactly the pixels between the mapped corners. Builder.max_bbox is
     the smallest box holding everything visible in any frame (frames with nothing visible count nothing, None for all such); scaled crops
     to the box and divides the size by the factor, leaving every pixel opaque or transparent and areas of one colour in that colour; the
     conversion palette holds the (up to 256) most frequent colours first, and frames converted with it keep their colours, the one of
     the upper left corner marked transparent; save_animation writes a file that shows each image, half the size, for its share of the
     duration, over and over, and by default without the margin beyond 16 pixels around what is visible. Images passed in are never
     changed.''',
     ['histories', 'inputs'], 'all sequences of painting, matrix changes, images, crops and conversions on any number of contexts and images',
     'Tests compare one rendered picture and never crop, scale or convert frames.',
     [D, 'x7/geom/anim.py', 'x7/geom/imagehelp.py'], [('DrawingContext', D), ('Builder', 'x7/geom/anim.py')],
     [('layer over background', 'painted so far', D)], ['DrawingContext.image', 'Builder.max_bbox/scaled/make_palette', 'rgb_to_transparent'])
prop('C28', 'Crossings of curve segments are found, once each, on both segments',
     '''For two Bezier segments that cross transversally away from their ends, bez_intersect reports every crossing exactly once, as a
     parameter on each segment or as the point, and both parameters lead to that point; segments that do not meet give nothing. The place
     where one segment goes on from the end of the other is reported only with endpoints=True, as parameters 1 and 0; one where both begin is reported always, as 0 and 0. The control points
     are not changed.''',
     ['inputs'], 'all pairs of segments in general position',
     'Tests intersect a handful of fixed curves.',
     ['x7/geom/bezier.py'], [('bez_intersect', 'x7/geom/bezier.py')], [], ['bez_intersect'])

prop('C29', 'An offset curve runs alongside at the distance, to the inside',
     '''offset(d) of a closed curve gives a new closed curve named <name>_o with the same pen and identity transform, whose control polygon
     (handles and centres in turn, in the curve's mapped position) has its edges parallel to those of the original at the distance |d|:
     to the inside for positive d, to the outside for negative d, whichever way round the original runs (one that runs clockwise comes out
     reversed). A corner goes along its bisector, at most OFFSET_PT_LIMIT far and then still to its own side. The original stays as it is.
     (Meant for curves whose handles are not of zero length and that do not turn back on the spot.)''',
     ['inputs'], 'all closed curves with handles, both orientations, all distances and transforms',
     'Tests offset one or two fixed shapes by one distance and compare with recorded output.',
     ['x7/geom/model.py'], [('ElemCurve.offset', 'x7/geom/model.py'), ('ElemCurve.offset_pt', 'x7/geom/model.py')], [], ['offset'])

prop('C30', 'Recorded geometry matches exactly what is within tolerance',
     '''assertAlmostEqual of the geometry test case accepts points, vectors, relative points and control points, alone or in lists and tuples,
     exactly if they are of the same class and corner kind and every coordinate is within the given places or delta (seven places by
     default), and otherwise says what differs; a match with recorded data accepts exactly what is equal, and reports as close what is
     within 1e-11.''',
     ['inputs'], 'all values, differences and tolerances',
     'Tests compare one value with a copy, a close one and a far one, with the default tolerance only.',
     ['x7/geom/testing.py'], [('matchers', 'x7/geom/testing.py')], [], ['TestCaseGeomExtended.assertAlmostEqual', 'TestCaseGeomExtended.match'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
