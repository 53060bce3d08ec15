"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""

PROPERTIES = []
NOT_APPLICABLE = []

AI = 'abstract interpretation of the source'
GE = 'Patro/GeometryEngine/'
TRUST = ('Over-approximating abstract interpreter (psa/interp.py): joins at every merge, bounded contexts; trusts its '
         'models of Python builtins and numpy. Silent where a value is unknown, so absence of an alarm is not a proof '
         'for the values counted as unknown.')
LAWS = ('Each obligation counted as proved is an identity of canonical polynomials, for all inputs in general position; '
        'undecided obligations are listed in the evidence and never alarm. Trusts the models of builtins, math and numpy; '
        'floating-point rounding is ignored.')


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                           mechanism=mechanism, technique=technique, note=note))


def NA(id, title, statement, over, text, why, files, mechanism, reason):
    P(id, title, statement, over, text, why, files, mechanism, None, None)
    NOT_APPLICABLE.append((id, reason))


P('G01', 'Geometry operators and queries leave their operands unchanged',
  'Arithmetic operators, property reads, queries and measures of vectors, transformations, primitives, curves and '
  'paths never modify their receiver, their arguments or shared module state, apart from filling an internal cache. '
  'Only setters, in-place operators, path-building calls, recentering, in-place normalisation and transformations '
  'applied without asking for a copy modify their receiver, and even these never modify their arguments.',
  ['inputs', 'histories'], 'every public operation, every receiver and argument, whatever was called before',
  'A test sees a value after one call; aliasing shows only when the same operand is used again later.',
  [GE + f for f in ('Vector.py', 'Primitive.py', 'Bezier.py', 'Path.py', 'Polygon.py', 'Transformation.py')],
  [('operators build new vectors', GE + 'Vector.py:Vector2DBase'),
   ('points copied by the constructors', GE + 'Primitive.py:Primitive1PMixin')],
  AI + ': write effects on pre-existing objects', TRUST)

P('G02', 'Primitives keep, copy, reverse and transform all their points',
  'A segment, polyline, triangle, rectangle, polygon, Bezier curve or spline reports its defining points in order, '
  'through its points, items, start, end and number of points, point arrays, reversed, closed, pairwise and '
  'consecutive iterations; a clone equals its original and shares no mutable point with it; reversing returns another '
  'primitive of the same kind with the points in reverse order; a transformation, mirror, rotation or scale asked with '
  'a copy leaves the original unchanged and returns the transformed copy, and without a copy changes and returns the '
  'primitive itself; two such primitives are equal exactly when all their points are, in the same order; closed primitives convert to a '
  'polygon and a closed path through the same vertices, and the bounding box is the smallest one holding the points.',
  ['inputs', 'histories'], 'every point-defined primitive, every position of its points and every transformation',
  'Tests construct a few primitives; the order and ownership of the points after a copy or a transformation is not '
  'examined.',
  [GE + f for f in ('Primitive.py', 'Segment.py', 'Polygon.py', 'Spline.py', 'Line.py', 'Rectangle.py')],
  [('point lists', GE + 'Primitive.py:Primitive2P'), ('transform', GE + 'Primitive.py:PointPrimitive.transform')],
  AI + ': polynomial value numbering, identity of the points', LAWS)

P('G04', 'Measures and constructions are homogeneous under scaling of the drawing',
  'Multiplying every input length and coordinate by the same positive factor multiplies lengths, perimeters, '
  'distances and resulting coordinates by that factor, areas by its square, and leaves angles, ratios and curve '
  'parameters unchanged. In particular no operation adds, subtracts or compares a length with an area, with a ratio '
  'or with a non-zero constant (declared tolerances are lengths).',
  ['inputs'], 'every public geometry operation, every drawing and every scale factor',
  'The tests check isolated shapes at one size; a formula mixing powers of a length agrees at that size or near 1.',
  [GE + f for f in ('Vector.py', 'Segment.py', 'Line.py', 'Triangle.py', 'Polygon.py', 'Conic.py', 'Bezier.py', 'Path.py')],
  [('formulas', GE)], AI + ': degrees of homogeneity (dimension inference)', TRUST)

P('G05', 'Geometry is covariant under translation of the drawing',
  'Translating every input point by the same vector translates the resulting points by it and leaves lengths, '
  'distances, areas and angles unchanged. In particular a coordinate is never compared with a length or with a sum '
  'of coordinates.',
  ['inputs'], 'every public geometry operation, every drawing and every translation',
  'The tests place shapes at the origin, where positions and displacements coincide.',
  [GE + f for f in ('Segment.py', 'Line.py', 'Rectangle.py', 'Polygon.py', 'Conic.py', 'Bezier.py', 'Path.py')],
  [('positions and displacements', GE)], AI + ': translation weights (affine type inference)', TRUST)

P('G06', 'Angles are degrees at the interface and converted exactly once',
  'Public angles are in degrees; trigonometric functions receive radians and inverse trigonometric results are '
  'converted to degrees exactly once. A degree and a radian are never added or compared. The points, tangents, arcs, '
  'rotations, directions and bounding boxes obtained from an angle are those of this angle, and the orientations and '
  'angles returned are those of the directions.',
  ['inputs'], 'every public geometry operation and every angle',
  'Tests use a few angles such as 0 or 90, and many operations with angles are not tested at all.',
  [GE + f for f in ('Vector.py', 'Mixin.py', 'Conic.py', 'Transformation.py', 'Triangle.py', 'Path.py', 'Polygon.py')],
  [('radians()/degrees() at the boundary', GE + 'Vector.py')], AI + ': unit inference and value numbering', TRUST)

P('G07', 'Bezier and spline curves evaluate, split, convert and differentiate consistently',
  'A curve starts and ends at its end points; splitting at a parameter, converting to another curve type, elevating '
  'the degree and reversing all keep the same point set with the corresponding parameters. Tangents are parallel to '
  'the derivative and normals are perpendicular to the tangents.',
  ['inputs'], 'every control polygon and every parameter in [0, 1]',
  'Tests sample a few parameters of a few symmetric curves.',
  [GE + 'Bezier.py', GE + 'Spline.py', GE + 'Interpolation.py'],
  [('Bernstein and De Casteljau evaluation', GE + 'Bezier.py:QuadraticBezier2D'),
   ('basis matrices', GE + 'Spline.py:CubicUniformSpline2D')],
  AI + ': polynomial value numbering', LAWS)

P('G08', 'Vectors compute the documented products, turns, angles and conversions',
  'Sum, difference, scaling, dot and cross products, magnitude, projection, deviation, cosine, sine and angle between '
  'vectors, rotation (counter-clockwise for positive angles, clockwise on demand), quarter turns, orientation, '
  'constructors from angle, polar and elliptic coordinates, normalisation and middle give the exact mathematical result '
  'for every operand, whatever its sign or magnitude, and in-place operators change the vector itself and give the same '
  'result as the corresponding operator, while other results share nothing with their operands. Two vectors are equal '
  'exactly when their coordinates are, almost equal within the absolute plus relative tolerances, parallel or orthogonal '
  'when their cross or dot product is null up to rounding; lists of coordinates give the vectors in order.',
  ['inputs'], 'every vector, factor and angle, in all four quadrants',
  'Tests sample a few axis-aligned vectors; a swapped component or a sign shows only on others.',
  [GE + 'Vector.py'], [('vector operations', GE + 'Vector.py:Vector2DBase')],
  AI + ': polynomial value numbering', LAWS)

P('G09', 'Transformations apply, compose and classify as the affine group',
  'Rotation, scale, reflection, parity, translation, rotation at a point and screen transformations map every point as '
  'documented; the product of two transformations applies the right one first, while T *= U applies U after T; '
  'a length is scaled by the factor of the transformation; only a product that is the identity is classified as the '
  'identity; a transformation built from a list or another transformation has the same matrix, in its own storage.',
  ['inputs', 'histories'], 'every transformation, every product of two of them and every point',
  'Tests apply one or two transformations to one point; the order and the type of products are not covered.',
  [GE + 'Transformation.py'], [('matrices and types', GE + 'Transformation.py:Transformation')],
  AI + ': polynomial value numbering', LAWS)

P('G10', 'Lines, segments, triangles and rectangles: measures and constructions',
  'Intersections lie on both lines; parallel, collinear and crossing segments are told apart; projections, distances, '
  'interpolation, reflections, shifted, parallel and orthogonal lines, lengths, areas, perimeters, triangle centres, '
  'edges, bisectors, orientation, inclusion and kinds (flat triangles are refused), rectangle corners and bounding boxes are exactly those of Euclidean geometry. A test that compares '
  'a computed point with a given one tolerates rounding.',
  ['inputs'], 'every line, segment, triangle and rectangle in general position and the named special positions',
  'Tests use a handful of axis-aligned figures.',
  [GE + f for f in ('Line.py', 'Segment.py', 'Triangle.py', 'Rectangle.py', 'Polyline.py', 'Primitive.py')],
  [('line algebra', GE + 'Line.py:Line2D'), ('segment intersection', GE + 'Segment.py:Segment2D')],
  AI + ': polynomial value numbering', LAWS)

P('G11', 'Polygons, circles, ellipses and arcs: measures and constructions',
  'Area, perimeter, barycenter, axes, orientation, convexity, convex hull, simplification and inclusion of polygons and '
  'regular polygons, angular domains '
  '(length, inclusion, transformation), circles and ellipses (points at an angle, extents, areas, tangents, arcs, '
  'intersections with segments and circles, distances, Bezier conversion, SVG arc end points) are exactly those of '
  'Euclidean geometry.',
  ['inputs'], 'every such figure in general position and the named special positions',
  'Tests use a handful of figures centred at simple points.',
  [GE + f for f in ('Polygon.py', 'Conic.py', 'Mixin.py')],
  [('shoelace formulas', GE + 'Polygon.py:Polygon2D'), ('circle and ellipse', GE + 'Conic.py')],
  AI + ': polynomial value numbering', LAWS)

P('G12', 'Paths: end points, control points, copies and transformations',
  'Each part of a path starts where the previous one stops; relative parts are offsets from there and absolute parts '
  'are positions; horizontal, vertical and compass parts go in their direction; a stringed curve mirrors the last '
  'control point of a previous curve of its kind; closing returns to the start; a corner radius rounds the corner by a '
  'tangent arc, whatever the turn. A copy has the same points in parts of its own, making parts absolute keeps the points, and a '
  'transformed path has the transformed points, radii and arcs.',
  ['inputs', 'histories'], 'every sequence of parts, relative or absolute, and every transformation',
  'Tests build two paths from fixed numbers and mostly check that nothing raises.',
  [GE + 'Path.py'], [('parts linked to their neighbours', GE + 'Path.py:PathPart'), ('path', GE + 'Path.py:Path2D')],
  AI + ': polynomial value numbering', LAWS)

P('G13', 'No geometry operation fails with an internal error',
  'Every public operation of the geometry engine, applied to a well-formed receiver and well-typed arguments, '
  'returns a value or raises a deliberate error. It never refers to an undefined name, reads an attribute the object '
  'does not have, calls a function with arguments it does not accept or uses an operand of a type it cannot have.',
  ['inputs', 'histories'], 'every public operation, every combination of optional arguments, every branch',
  'The tests reach a small part of the operations and branches of the engine.',
  [GE], [('Python name and attribute resolution', GE)], AI + ': name, attribute, arity and operand-type errors', TRUST)

####################################################################################################
# SVG

SV = 'Patro/FileFormat/Svg/'
TEXTS = ('Each obligation counted as proved holds for every number and every text of its kind; undecided obligations are '
         'listed in the evidence and never alarm. Numbers are assumed to be read back from their text exactly; trusts '
         'the models of str, float and dict; the XML parser itself is not analysed.')
SYM = AI + ': symbolic numbers and texts'

P('S01', 'SVG path data are read as the path they describe',
  'Each command of SVG path data (M, L, H, V, C, S, Q, T, A, Z, absolute in upper case and relative in lower case) adds '
  'the part of the SVG specification with its end point, control points, radii, angle and flags; a command whose '
  'letter is not repeated is repeated, and points after a first move are lines of the same kind; commas, white space, '
  'signs and letters separate numbers, and exponents are understood; an unknown command, a missing or an extra number and '
  'data which do not start by a move are errors.',
  ['inputs'], 'every sequence of commands and every coordinate',
  'No test reads SVG path data; only a few letters occur in the sample files.',
  [SV + 'SvgFormat.py', 'Patro/GeometryEngine/Path.py'],
  [('command dispatch', SV + 'SvgFormat.py:PathDataAttribute.to_geometry'),
   ('tokens', SV + 'SvgFormat.py:PathDataAttribute.from_xml')], SYM, TEXTS)

P('S02', 'A path written as SVG path data reads back as the same path',
  'The path data written for a path (lines, horizontal, vertical and compass parts, quadratic and cubic curves, stringed '
  'curves, arcs, closed or not) have absolute commands with the points of the path, and reading them gives a path with '
  'the same start point, parts, end points, control points, radii, flags and closure. Lists of commands are written '
  'as they are.',
  ['inputs'], 'every path without rounded corners',
  'No test writes SVG paths.',
  [SV + 'SvgFormat.py'], [('writer', SV + 'SvgFormat.py:PathDataAttribute.from_geometry')], SYM, TEXTS)

P('S03', 'SVG transform attributes denote the transformation of the specification',
  'matrix, translate, scale and rotate, with their optional arguments and separated by commas or white space, map every '
  'point as the SVG specification says; in a list the last transformation is applied first, or the transformations are given one by one in the order of the list when asked for; a transformation that is '
  'written and read back maps every point to the same image.',
  ['inputs'], 'every transform list of matrix, translate, scale and rotate, and every point',
  'No test reads transform attributes.',
  [SV + 'SvgFormat.py'], [('transform list', SV + 'SvgFormat.py:TransformAttribute')], SYM, TEXTS)

P('S04', 'The SVG graphics state is inherited, overridden and restored',
  'A new graphics state has the documented defaults. Entering a group or an element overrides the properties it sets, '
  'directly or in its style attribute (which wins), inherits the others and composes its transformation on the right of '
  'the one of its parents; the value none clears a property; leaving a group restores the state of its parent exactly, '
  'and a copied state is independent of the original. As a dictionary the state has its set properties, or all of them.',
  ['inputs', 'histories'], 'every nesting of groups and elements and every combination of properties',
  'No test reads nested groups.',
  [SV + 'SvgFile.py'], [('state stack', SV + 'SvgFile.py:RenderStateStack'), ('merge', SV + 'SvgFile.py:RenderState.merge')],
  SYM, TEXTS)

P('S05', 'SVG elements keep their attributes and the document order',
  'Reading an SVG element gives an object of the class of its tag whose attributes have the values of the XML attributes '
  'converted to their types (lengths with a unit or a percentage, which keep their text, lists separated by commas or '
  'spaces), None when '
  'absent. The shapes of a document (circle, ellipse, line, path, polyline, polygon, rect) and its groups are reported '
  'in document order, namespaces ignored, each with the graphics state of its group. A rectangle is the closed path of '
  'its corners, with its radius, each missing coordinate of its position being zero.',
  ['inputs'], 'every element and every nesting',
  'No test reads SVG files.',
  [SV + 'SvgFile.py', SV + 'SvgFormat.py', 'Patro/Common/Xml/Objectivity.py'],
  [('dispatch by tag', SV + 'SvgFile.py:SvgDispatcher'), ('typed attributes', 'Patro/Common/Xml/Objectivity.py:Attribute')],
  SYM, TEXTS)

P('S06', 'SVG files are written for the paper and read with their view box',
  'A written SVG 1.1 document has the name spaces and the document type of the standard, the size of the paper in millimetres and a '
  'view box of one user unit per millimetre, and its elements in order with their attributes and texts, inside one group with '
  'the transformation if there is one. Reading a document, from a file or from data, gives its view box, width and height and '
  'reports the root, then the groups and shapes in document order; a missing file is an error.',
  ['inputs'], 'every paper, element list and document',
  'No test reads or writes SVG files.',
  [SV + 'SvgFile.py', 'Patro/Common/Xml/XmlFile.py'],
  [('writer', SV + 'SvgFile.py:SvgFileWriter'), ('reader', SV + 'SvgFile.py:SvgFileInternal')], SYM, TEXTS)

####################################################################################################
# scene

SC = 'Patro/GraphicEngine/GraphicScene/'
SCENE = ('Each obligation counted as proved holds for every number; undecided obligations are listed in the evidence and '
         'never alarm. The spatial index (rtree) is replaced by a list of boxes that are all returned; trusts the models '
         'of builtins.')
NUM = AI + ': polynomial value numbering and object identity'

P('N01', 'A primitive added to a scene is shown by one item with its geometry',
  'Adding a segment, quadratic or cubic curve, circle or ellipse (whole or arc), rectangle, polyline, polygon or triangle '
  'to a scene makes exactly one item of the corresponding kind, with the given style and the primitive as user data, whose '
  'geometry has the same points, centre, radii, angle and start and stop angles; a spline makes one such item per Bezier '
  'curve it consists of; an infinite line is refused and adds nothing. Circle and ellipse items are whole by default and closed '
  'when their angles span at least one turn.',
  ['inputs'], 'every primitive', 'No test uses the graphic scene.',
  [SC + 'Scene.py', SC + 'GraphicItem.py'],
  [('dispatch', SC + 'Scene.py:GraphicSceneScope.add_geometry'), ('items', SC + 'GraphicItem.py')], NUM, SCENE)

P('N02', 'Paths and Bezier chains added to a scene keep all their parts',
  'A path added as segments makes one item per part, in order, with the points of that part, an arc of circle before each '
  'rounded line, an arc of ellipse per arc (a line when a radius is zero) and the closing line; added as one item, the item has the same parts, end and '
  'control points and closure. A path item always reports the parts added so far, even when its geometry was asked for '
  'before. A Bezier chain of degree 1, 2 or 3 makes consecutive curves sharing their end points; another degree or a '
  'wrong number of points is a ValueError and adds nothing.',
  ['inputs', 'histories'], 'every path and every chain', 'No test uses the graphic scene.',
  [SC + 'Scene.py', SC + 'GraphicItem.py'],
  [('parts', SC + 'Scene.py:GraphicSceneScope.add_as_path_segments'), ('chains', SC + 'Scene.py:GraphicSceneScope.bezier_path')],
  NUM, SCENE)

P('N03', 'Named positions and the scope transformation apply to every item',
  'A position given by name is the current position of the coordinate of that name, a position given by a vector is that '
  'vector, and the transformation of the scope is applied exactly once to each position of every kind of item, in their '
  'order; without transformation positions are unchanged.',
  ['inputs', 'histories'], 'every position, every name, every kind of item', 'No test uses the graphic scene.',
  [SC + 'Scene.py', SC + 'GraphicItem.py', SC + 'GraphicItemMixin.py'],
  [('cast', SC + 'Scene.py:GraphicSceneScope.cast_position')], NUM, SCENE)

P('N04', 'A scene lists, orders, selects and finds its items',
  'A scene iterates its items in the order of insertion; the z order iteration skips invisible items, goes by increasing '
  'z value and keeps the order of insertion within one value; the selected items are those marked as selected, in order, '
  'until they are all unselected; the items of a user datum are exactly those added with this object and not removed; '
  'removing an item leaves the others. A new item is visible, not selected, at z value 0.',
  ['inputs', 'histories'], 'every sequence of additions, changes and removals', 'No test uses the graphic scene.',
  [SC + 'Scene.py', SC + 'GraphicItemMixin.py'], [('scene', SC + 'Scene.py:GraphicSceneScope')], NUM, SCENE)

P('N05', 'The spatial index of a scene follows its items',
  'Updating the index gives each item exactly one box, its bounding box at that moment, including items added or marked as '
  'changed since the previous update; removing an item removes its box. The items at a position are searched in the square '
  'of the given radius around it and are those at a distance of at most the radius, nearest first; items that '
  'have no distance are skipped. Marking an item as changed discards its cached geometry.',
  ['inputs', 'histories'], 'every sequence of additions, moves, queries and removals', 'No test uses the graphic scene.',
  [SC + 'Scene.py', SC + 'GraphicItemMixin.py'],
  [('boxes', SC + 'Scene.py:GraphicSceneScope.update_rtree'), ('picking', SC + 'Scene.py:GraphicSceneScope.item_at')], NUM, SCENE)

P('N06', 'Path styles keep their attributes and typographic units convert exactly',
  'A path or Bezier style has the documented defaults and, for each attribute, the value it was given or last set to; '
  'a clone has the same class and attributes and changing it leaves the original unchanged. Converting a length between '
  'millimetres, inches (25.4 mm) and points (72 per inch) gives the unit asked for with the exact value.',
  ['inputs'], 'every attribute and every length', 'No test uses styles or units.',
  [SC + 'GraphicStyle.py', SC + 'TypographyUnit.py'],
  [('styles', SC + 'GraphicStyle.py:GraphicPathStyle'), ('units', SC + 'TypographyUnit.py:TypographyUnit')], NUM, SCENE)

####################################################################################################
# sketches

PT = 'Patro/Pattern/'
SKETCH = ('Each obligation counted as proved holds for every number; undecided obligations are listed in the evidence and '
          'never alarm. Expressions are read by the stand-ins of the Python parser in psa/standins (ast, re), whose '
          'agreement with the real ones is trusted; so are the models of builtins.')
SYO = AI + ': symbolic numbers, texts and object identity'

P('P01', 'Each sketch operation places its point or curve as documented',
  'After evaluation of a sketch: a single point is at its coordinates; a point along a line is at the given length from the '
  'first point towards the second; an end line point is at the length and angle (degrees) from its base point; a line '
  'intersection point is on both lines; a normal point is at the length from the first point on the left normal of the '
  'line from the first to the second point, turned by the angle; a point of intersection has the x of its first and the y of its '
  'second point; a point of contact is the intersection of the line with the circle in the direction of the second point; '
  'the control points of an interactive spline are at its lengths and angles from its end points. The geometry of an '
  'operation has these points; the geometry of a spline that is not evaluated is a NameError.',
  ['inputs'], 'every coordinate, length and angle', 'No test evaluates a sketch.',
  [PT + 'SketchOperation.py'], [('operations', PT + 'SketchOperation.py:SketchOperation.eval_internal')], SYO, SKETCH)

P('P02', 'Sketch expressions have the value of the measurements and points they name',
  'An expression is a number, a measurement by its name (@name for a custom one), the length Line_A_B or the orientation '
  'AngleLine_A_B of the line from point A to point B, CurrentLength (the distance of the two points of the operation) or an '
  'arithmetic expression of them, parentheses and calls included. Its dependencies are the points it names, its '
  'value is recomputed after it is marked as dirty, and an unknown name leaves it without value.',
  ['inputs', 'histories'], 'every measurement and every point position', 'No test evaluates an expression.',
  [PT + 'Calculator.py'], [('names', PT + 'Calculator.py:Calculator'), ('compilation', PT + 'Calculator.py:Expression')], SYO, SKETCH)

P('P03', 'A sketch finds its operations, knows their dependencies and shows them all',
  'Operations are found by name, by the given or the generated id, and are listed in the order of their construction; an '
  'operation with the id of another one is a NameError and is not added. The dependencies of an operation are exactly the '
  'points it is built on and, after evaluation, those its expressions name, and the dependency graph has the corresponding '
  'edges in both directions. The bounding box of a sketch is the one of its points; its detail scene has the position of '
  'each point under its name, a circle and a label per point and a curve per spline.',
  ['inputs', 'histories'], 'every point position', 'No test builds a sketch.',
  [PT + 'Sketch.py', PT + 'SketchOperation.py', 'Patro/Common/Graph/DirectedAcyclicGraph.py'],
  [('registration', PT + 'Sketch.py:Sketch'), ('dependencies', PT + 'SketchOperation.py:SketchOperation')], SYO, SKETCH)

P('P04', 'The Python code of a sketch operation recreates it',
  'The Python code of an operation is the call of the constructor of its class with every parameter but the id, in order and by '
  'keyword: points by name, numbers as numbers, other expressions quoted, the label offset, line style and line colour as the '
  'Python expressions of their values.',
  ['inputs'], 'every operation class', 'No test exports a sketch as Python.',
  [PT + 'SketchOperation.py'], [('export', PT + 'SketchOperation.py:SketchOperation.to_python')], SYO, SKETCH)

P('P05', 'The scopes of a pattern are independent and found by name or index',
  'Each scope of a pattern has its own sketch and calculator and the unit of the pattern; scopes are found by name or by index '
  'in the order of their addition, an unknown scope is None, and removing a scope leaves the others; removing an unknown '
  'one changes nothing.',
  ['inputs', 'histories'], 'every sequence of additions and removals', 'No test uses scopes.',
  [PT + 'Pattern.py'], [('scopes', PT + 'Pattern.py:Pattern')], SYO, SKETCH)

P('P06', 'The detail scene shows a sketch at its points with the style',
  'The detail scene of a sketch has, for each point, a circle of the point size and colour, a label with its name and the font at the label offset from '
  'the point (y down) and a line of the label width to it; a segment in the construction width between the first or base point and an '
  'along line, end line or normal point; a segment per line and a cubic curve per spline in the line width; each with the line style and colour of '
  'its operation, which is its user data. Each call gives a new scene of the class and bounding box asked for.',
  ['inputs'], 'every sketch and style', 'No test makes a scene of a sketch.',
  [PT + 'Sketch.py', PT + 'SketchStyle.py'], [('scene', PT + 'Sketch.py:Sketch'), ('style', PT + 'SketchStyle.py:DetailSketchStyle')],
  SYO, SKETCH)

####################################################################################################
# Valentina

VA = 'Patro/FileFormat/Valentina/'
FILES = ('Each obligation counted as proved holds for every number and text of its kind; undecided obligations are listed in '
         'the evidence and never alarm. XML trees (lxml), expressions (sympy, ast) and YAML are stand-ins in psa/standins '
         'trusted to agree with the real libraries; numbers are assumed to be read back from their text exactly.')

P('V01', 'Elements of Valentina patterns are read as the operations they describe',
  'Each supported element (point of type single, alongLine, endLine, lineIntersect, normal, pointOfContact, pointOfIntersection; '
  'line; interactive spline) gives the operation of the corresponding class with the id, name, points, expressions, label '
  'offset, line style and line colour of its attributes; the line types and colours of the format map to the styles and '
  'colours of Patro.',
  ['inputs'], 'every attribute value', 'No test reads Valentina elements.',
  [VA + 'VitFormat.py', VA + 'Pattern.py'], [('elements', VA + 'VitFormat.py'), ('dispatch', VA + 'Pattern.py:CalculationDispatcher')],
  SYO, FILES)

P('V02', 'Operations are written as the Valentina elements that describe them',
  'Each operation that Valentina files support is written as the element with its tag, type, id, name, points given by id, expressions, '
  'label offset, line type and colour, and no other attribute (a default line style or colour where the operation has none); '
  'the element written for an operation is read back as an equal operation.',
  ['inputs'], 'every attribute value', 'No test writes Valentina elements.',
  [VA + 'VitFormat.py', VA + 'Pattern.py'], [('elements', VA + 'VitFormat.py'), ('dispatch', VA + 'Pattern.py:CalculationDispatcher')],
  SYO, FILES)

P('V03', 'Valentina pattern files are read and written piece by piece',
  'Reading a pattern file gives a scope per piece, in order, named after it, with its operations in order and evaluated, and the unit '
  'of the file (a file without unit is a NameError); unsupported operations and those built on them are skipped and the others '
  'kept. Writing a pattern makes one piece per scope with its operations in order and the unit; reading what was written '
  'gives the same operations at the same positions. The measurements are those of the file named by the pattern, looked up from the working directory, then '
  'from the directory of the pattern (NameError when missing), and writing names their file. A detail iterates over its nodes with the modeling item of each, '
  'skipping nodes without one.',
  ['inputs'], 'every pattern of supported operations', 'No test reads or writes a pattern file.',
  [VA + 'Pattern.py', VA + 'VitFormat.py'], [('reader', VA + 'Pattern.py:ValFileReader'), ('writer', VA + 'Pattern.py:ValFileWriter')],
  SYO, FILES)

P('V04', 'Valentina measurement files are read completely',
  'Reading a measurement file gives its unit, pattern making system, personal data and measurements in order, each with its '
  'name (@name for custom ones), value or expression, full name and description, empty when absent; an unknown element is refused.',
  ['inputs'], 'every measurement file', 'No test reads a measurement file element by element.',
  [VA + 'Measurement.py'], [('reader', VA + 'Measurement.py:VitFile')], SYO, FILES)

P('V05', 'XML objects convert their attributes between text and typed values',
  'An XML object has the attributes declared by its class and its base classes, read from the XML names with their types, with '
  'the default when absent or unset, settable afterwards; its XML element has its tag and the attributes that '
  'are set, converted back to text, and the further ones asked for. Booleans are true, 1, false and 0, anything else a ValueError. The '
  'first or all elements of a path and their text are found, None when there is none.',
  ['inputs'], 'every attribute type and value', 'No test uses the XML objects.',
  ['Patro/Common/Xml/Objectivity.py', 'Patro/Common/Xml/XmlFile.py'],
  [('attributes', 'Patro/Common/Xml/Objectivity.py:Attribute'), ('objects', 'Patro/Common/Xml/Objectivity.py:XmlObjectAdaptator')],
  SYO, FILES)

####################################################################################################
# measurements

ME = 'Patro/Measurement/'

P('M01', 'A measurement has the value of its expression over the other measurements',
  'The value of a measurement is its number, or its arithmetic expression evaluated with the values of the measurements it names, '
  'whatever the order in which they were added and through any chain of them; while one of them is unknown the value is a TypeError.',
  ['inputs', 'histories'], 'every value and every order of additions', 'Tests read one measurement file.',
  [ME + 'Measurement.py'], [('evaluation', ME + 'Measurement.py:Measurement.eval')], SYO, FILES)

P('M02', 'A measurement set finds, orders and names its measurements',
  'Measurements are found by name as items and attributes, iterated in the order of addition or sorted by name; an existing name is a '
  'NameError and an invalid one a ValueError, neither is registered; an unknown attribute is an AttributeError. Spaces in names become '
  'underscores. A custom Valentina measurement @x is named C_x, found under both names and usable in '
  'expressions as @x. A set has its unit, system and its own personal data.',
  ['inputs', 'histories'], 'every sequence of additions', 'Tests read one measurement file.',
  [ME + 'Measurement.py', ME + 'ValentinaMeasurement.py'],
  [('registration', ME + 'Measurement.py:MeasurementSet'), ('names', ME + 'ValentinaMeasurement.py:ValentinaMeasurement')], SYO, FILES)

P('M03', 'Measurements saved as YAML are read back with their values and texts',
  'The YAML document of a measurement set maps each name to its value or expression, full name and description (the last two '
  'only when they are needed); loading such a document gives measurements with these values and texts; what was saved '
  'loads as an equal set.',
  ['inputs'], 'every measurement set', 'No test saves measurements.',
  [ME + 'Measurement.py'], [('yaml', ME + 'Measurement.py:MeasurementSet.save_as_yaml')], SYO, FILES)

P('M04', 'Personal data keep the values given and have the documented defaults',
  'First and last name, email and comment are empty texts unless given (or set to None), dates None, and the gender unknown; '
  'dates may be given as dates or texts; '
  'a gender may be given by its name in any case.',
  ['inputs'], 'every value', 'No test uses personal data.',
  [ME + 'PersonalData.py'], [('personal data', ME + 'PersonalData.py:PersonalData')], SYO, FILES)

P('M05', 'Standard measurements are registered once and found by name',
  'A standard measurement has its name, full name, description and default value (0 unless given), which may be set; a '
  'collection finds, contains, counts and iterates its measurements in order and refuses a second one of the same name with a '
  'NameError, keeping the first. The Valentina standard is every measurement of every topic of its data file, with its code.',
  ['inputs', 'histories'], 'every sequence of additions', 'No test uses standard measurements.',
  [ME + 'StandardMeasurement.py'], [('registration', ME + 'StandardMeasurement.py:StandardMeasurement')], SYO, FILES)

####################################################################################################
# common tools

CO = 'Patro/Common/'
TOOLS = ('Each obligation counted as proved holds for every number and text of its kind; undecided obligations are listed in '
         'the evidence and never alarm. Other threads are a stand-in of threading: they act just before a lock is acquired and just '
         'after it is released, once per obligation.')

P('C01', 'The atomic counter never loses an increment and never goes back',
  'increment adds the value (1 by default) and returns the new value; set moves the counter forward and refuses a value which is not '
  'greater with a ValueError, changing nothing. This holds while another thread uses the counter at any lock boundary: the value returned '
  'is the one this increment made and the test of set applies to the value it replaces.',
  ['inputs', 'schedules', 'histories'], 'every value, every interleaving with another thread', 'No test uses the counter.',
  [CO + 'AtomicCounter.py'], [('lock', CO + 'AtomicCounter.py:AtomicCounter.increment')],
  SYO + '; interference of another thread at the lock boundaries', TOOLS)

P('C02', 'Global identifiers are unique and names are texts',
  'Objects with a global id created without one get increasing ids from a single counter shared by all the classes, '
  'also when two threads create objects, and after the ids that were given; a given id is kept, even a past one. Names are texts or None.',
  ['inputs', 'schedules', 'histories'], 'every sequence of creations', 'No test uses ids.',
  [CO + 'Object.py'], [('ids', CO + 'Object.py:ObjectGlobalIdMixin'), ('names', CO + 'Object.py:ObjectNameMixin')],
  SYO + '; interference of another thread at the lock boundaries', TOOLS)

P('C03', 'A singleton class is constructed once, also by two threads',
  'Every construction of a singleton (metaclass, class decorator, function decorator) gives the object constructed first, which '
  'is constructed once, also when another thread constructs it just before the lock is acquired; with the metaclass each subclass has its own.',
  ['inputs', 'schedules'], 'every order of constructions, every interleaving with another thread', 'No test uses singletons.',
  [CO + 'Singleton.py'], [('metaclass', CO + 'Singleton.py:SingletonMetaClass'), ('decorators', CO + 'Singleton.py:singleton')],
  SYO + '; interference of another thread at the lock boundaries', TOOLS)

P('C04', 'The dependency graph keeps its links symmetric and sorts ancestors first',
  'Nodes are found by id and a duplicate is a NameError keeping the first; descendants and ancestors are the two directions of the same '
  'edges, roots have no ancestor and leafs no descendant, disconnecting removes one edge in both directions, connecting twice '
  'adds nothing; a breadth first search yields each reachable node once, nearest first; a topological sort yields every node once '
  'after its ancestors, whatever the order of insertion, and a cycle is a NameError.',
  ['inputs', 'histories'], 'every graph and order of insertion', 'No test sorts a graph.',
  [CO + 'Graph/DirectedAcyclicGraph.py'], [('nodes', CO + 'Graph/DirectedAcyclicGraph.py:DirectedAcyclicGraph')], SYO, TOOLS)

P('C05', 'Pairwise, closed and multiwise iterators yield the documented tuples',
  'pairwise yields the consecutive pairs, closed_pairwise adds the pair of the last and the first, closed_iterator adds the first item '
  'at the end, multiwise yields the consecutive n-tuples and nothing when there are too few items, the closed multiwise index '
  'iterator yields n consecutive indexes modulo the number of items, for each item.',
  ['inputs'], 'every non-empty sequence', 'Tests use them in passing.', [CO + 'IterTools.py'],
  [('iterators', CO + 'IterTools.py')], SYO, TOOLS)

P('C06', 'Real roots and small mathematical functions match their definition',
  'quadratic_root gives the two real roots in increasing order for a positive leading coefficient, the double root, '
  'the root of a linear equation and None without a real root; a cubic without cubic term has the roots of the quadratic or linear equation. '
  'The cubic, fourth and fifth degree functions give the real roots of the polynomial of their coefficients, normalised '
  'or not. sign, cmp, middle, epsilon_float, the clamps and integer roundings match their definition.',
  ['inputs'], 'every coefficient', 'Tests do not reach the degenerate equations.', [CO + 'Math/Root.py', CO + 'Math/Functions.py'],
  [('roots', CO + 'Math/Root.py'), ('functions', CO + 'Math/Functions.py')], SYO, TOOLS)

P('C07', 'Dates and paths given as texts are read as documented',
  'ensure_date keeps a date, gives the day of a datetime and reads year-month-day; ensure_datetime keeps a datetime and reads the ISO text with fraction '
  'and Z; others are a ValueError. find gives the path of the first file of this name in the trees of the directories, in order, or '
  'raises NameError. Absolute and parent paths match their definition and PathAction stores a path, a list of paths or None.',
  ['inputs'], 'every text and tree', 'No test uses dates or paths.', [CO + 'Datetime.py', CO + 'Path.py', CO + 'ArgparseAction.py'],
  [('dates', CO + 'Datetime.py'), ('paths', CO + 'Path.py')], SYO, TOOLS)

####################################################################################################
# styles, papers, textiles

GS = 'Patro/GraphicStyle/'
TT = 'Patro/TextileTechnology/'
STYLES = ('Each obligation counted as proved holds for every number and text of its kind; undecided obligations are listed in '
          'the evidence and never alarm. colorsys and yaml are stand-ins in psa/standins trusted to agree with the real libraries.')

P('X01', 'A colour keeps its components through every notation',
  'A colour made from #rrggbb, three integers 0..255, three floats 0..1, hls, hsv or another colour has these components as integers, '
  'floats and text (lower case, #000000 by default), also for each of the 256 levels; other texts, components out of range and incomplete components are a '
  'ValueError changing nothing. Setters change one component. Clones are equal and independent. Equality compares the integer components only.',
  ['inputs'], 'every component', 'No test uses colours.', [GS + 'Color/ColorDataBase.py'],
  [('components', GS + 'Color/ColorDataBase.py:Color')], SYO, STYLES)

P('X02', 'The colour database finds colours by name and accepts colours, names and texts',
  'Colours are found, contained, counted and iterated by name as items and attributes, an unknown one is a KeyError or an '
  'AttributeError; ensure_color returns None, the colour itself, the colour of that name or the colour of a #rrggbb text, refuses '
  'anything else with a ValueError and adds nothing. Predefined colours know their name, in which spaces are underscores.',
  ['inputs', 'histories'], 'every database', 'No test uses the database.',
  [GS + 'Color/ColorDataBase.py', GS + 'Color/__init__.py'], [('database', GS + 'Color/ColorDataBase.py:ColorDataBase')], SYO, STYLES)

P('X03', 'Paper sizes follow the ISO series and the orientation',
  'Sizes A, B and C 0 to 10 have heights 1189, 1414 and 1297 mm divided by the square root of 2 at each level, the width being the '
  'height divided by it; landscape exchanges them; the size in inches is the size divided by 25.4; name, margin and orientation are '
  'kept, an unknown size or orientation is a ValueError.',
  ['inputs'], 'every size and margin', 'No test uses papers.', ['Patro/GraphicEngine/Painter/Paper.py'],
  [('sizes', 'Patro/GraphicEngine/Painter/Paper.py:PaperSize')], SYO, STYLES)

P('X04', 'Yarns, needles, seams, stitches and fibers keep their data and units',
  'denier is 9 times tex, Nm is 1000 over tex, and the conversions are inverse; yarns, needles, needle systems and types, stitch types and '
  'ASTM seams return the data given in the documented attributes; the fiber database has the fibers of its file, in order, with '
  'their source and natural or synthetic type.',
  ['inputs'], 'every value', 'No test uses the textile data.',
  [TT + f for f in ('Yarn.py', 'Needle.py', 'Fiber.py', 'Seam.py', 'StitchType.py')],
  [('units', TT + 'Yarn.py'), ('fibers', TT + 'Fiber.py:FiberDatabase')], SYO, STYLES)

####################################################################################################
# DXF import

DX = 'Patro/FileFormat/Dxf/'
DXFS = ('Each obligation counted as proved holds for every number of its kind; undecided obligations are listed in the evidence and '
        'never alarm. ezdxf is a stand-in in psa/standins trusted to agree with the real library.')

P('D01', 'DXF entities are imported as the geometry they describe',
  'LINE, CIRCLE, ARC, ELLIPSE and SPLINE entities give the segment, circle, arc, ellipse (radii, orientation and start and end '
  'parameters of the entity, in degrees) or B-spline with the coordinates of the file, in the order of the file; other entities are skipped.',
  ['inputs'], 'every entity', 'No test imports a DXF file.', [DX + 'Importer.py'],
  [('importer', DX + 'Importer.py:DxfImporter')], SYO, DXFS)

P('D02', 'DXF polylines give the segments and the bulge arcs between their vertices',
  'A polyline gives a segment between consecutive vertices, and between the last and the first when it is closed; a non-zero bulge gives '
  'the arc through both vertices whose sagitta is the bulge times half the chord, at the right of the chord for a positive bulge and at the left for a '
  'negative one, with the angles of its ends. Vertices know the next and previous ones, circularly when closed.',
  ['inputs'], 'every vertex and bulge', 'No test imports a polyline.', [DX + 'Polyline.py', DX + 'Importer.py'],
  [('polylines', DX + 'Polyline.py:Polyline'), ('bulges', DX + 'Polyline.py:PolylineVertex')], SYO, DXFS)

####################################################################################################
# Painters

GP = 'Patro/GraphicEngine/Painter/'
TX = 'Patro/GraphicEngine/TeX/'
PAINT = ('Each obligation counted as proved holds for every coordinate, size and text; undecided obligations are listed in the evidence and '
         'never alarm. lxml, matplotlib, reportlab, ezdxf and open() are stand-ins in psa/standins trusted to agree with the real ones.')

P('O01', 'A painter paints each visible item once, by z value, with its method',
  'Each visible item of the scene is painted once, by increasing z value and then in the order of addition; a painter without '
  'method for an item raises NotImplementedError and errors of the method are passed on; no scene paints nothing. Cast positions and '
  'coordinates are those of the item (names resolved) transformed by the scene.',
  ['inputs', 'histories'], 'every scene', 'No test paints a scene.', [GP + 'Painter.py'], [('dispatch', GP + 'Painter.py:Painter')], SYO, PAINT)

P('O02', 'Tiles cover the drawing and its margin',
  'The tiles of a drawing are as large as the area of the page within its margins (in centimetres), start at the lower left corner of its bounding '
  'box enlarged by one (or the given) centimetre, touch each other without overlap, are as few as needed to cover this enlarged box, and '
  'come row by row with their row and column. The bounding box is unchanged.',
  ['inputs'], 'every drawing', 'No test tiles a drawing.', [GP + 'Painter.py'], [('tiles', GP + 'Painter.py:Tiler')], SYO, PAINT)

P('O03', 'The SVG file shows the scene in millimetres with its styles',
  'Segments, texts and circle centers are written in millimetres from the top left corner of the bounding box of the scene, y down, by increasing z; '
  'curves are not filled; colours are #rrggbb (black by default, none without colour or for an invisible line), dashed styles have dashes and '
  'line widths are kept.',
  ['inputs'], 'every scene', 'No test writes a scene.', [GP + 'SvgPainter.py'], [('painter', GP + 'SvgPainter.py:SvgPainter')], SYO, PAINT)

P('O04', 'The matplotlib figure shows the scene at its coordinates with its styles',
  'Segments, cubic curves, texts and circles are drawn at their coordinates in the scene, with the colour, line width and line style of their '
  'style (none for an invisible line or no colour); the axes have equal scales and are the bounding box enlarged by one tenth of '
  'its largest size, the box of the scene being unchanged.',
  ['inputs'], 'every scene', 'No test draws a figure.', [GP + 'MplPainter.py'], [('painter', GP + 'MplPainter.py:MplPainter')], SYO, PAINT)

P('O05', 'The PDF page and the DXF file show the scene at one scale',
  'The PDF has one page of the size of the paper, saved once after the drawing, with segments, curves, texts and circles at their coordinates '
  'multiplied by the same factor, the lower left corner of the scene being one centimetre from the borders. The DXF file has a LINE, a cubic SPLINE with the four control points and a TEXT, in order, in millimetres, with a '
  'line type per stroke style and the colour of the stroke.',
  ['inputs'], 'every scene', 'No test writes these files.', [GP + 'PdfPainter.py', GP + 'DxfPainter.py'],
  [('PDF', GP + 'PdfPainter.py:ReportlabPainter'), ('DXF', GP + 'DxfPainter.py:DxfPainter')], SYO, PAINT)

P('O06', 'The TikZ figures show the scene at its coordinates with its styles',
  'Coordinates are declared first, then segments, curves, texts and points are drawn, at positions with two decimals or by coordinate names. Styles give '
  'line width, a pattern per stroke style and the colour if any. The document has the paper and margin asked for; the tiled figure has one '
  'figure per tile, clipped to the tile, labelled by its row and column and showing the whole scene.',
  ['inputs'], 'every scene', 'No test writes TeX.', [GP + 'TexPainter.py', TX + 'Tikz.py'],
  [('painter', GP + 'TexPainter.py:TexPainter'), ('styles', TX + 'Tikz.py:TikzFigure')], SYO, PAINT)

P('O07', 'TeX documents nest their content in order',
  'A buffer is the texts and buffers appended to it, in order, seeing later additions unless copied; an environment puts its content between begin and end '
  'with its options; a document is its class and options, preamble and content; it is written to its .tex file, whose extension may be given or not.',
  ['inputs', 'histories'], 'every content', 'No test writes TeX.', [TX + f for f in ('Buffer.py', 'Environment.py', 'Document.py')],
  [('document', TX + 'Document.py:Document'), ('buffer', TX + 'Buffer.py:Buffer')], SYO, PAINT)


####################################################################################################
# The whole package

PKG = ['Patro']

P('R01', 'Names, imports, attributes and calls of the package resolve',
  'Importing any module of the package succeeds when its third-party libraries are installed (the draft GeometryEngine/Sketch excepted). No function or method that a user '
  'can reach refers to an undefined name or local variable, imports or reads a member that a package module does not define, reads or calls an attribute '
  'that neither self, a package class nor a just constructed package object can have, or calls a package function, method or constructor with '
  'arguments it refuses (too many, missing or unknown keywords), whatever branch is taken.',
  ['inputs', 'configurations'], 'every module, branch and error path',
  'A misspelt name in a branch fails only when this branch runs; most branches are run by no test.',
  PKG, [('modules', 'Patro'), ('formats', 'Patro/FileFormat'), ('operations', 'Patro/Pattern/SketchOperation.py')],
  'scope, member and call-signature resolution over the syntax trees of the whole package (name binding, definition order, class hierarchy)',
  'Sound for the names of scopes; attributes and calls are decided when the receiver is self, a class, a module or an object built in the same '
  'function, and unresolved receivers are left out. Third-party modules are not looked into.')

P('R02', 'Reading, testing, comparing, iterating and copying change no object',
  'Property reads, comparisons, len(), in, indexing, iteration, text conversion, arithmetic operators, clone and copy, and the is_*, has_*, get_*, to_*, '
  'number_of_* and *_iter methods never modify the receiver, apart from filling a cache on demand (to_absolute and the to_svg, to_pdf and to_tex renderings excepted). Public '
  'functions and methods never modify the objects, lists or dictionaries they are given as arguments (links of graph nodes excepted).',
  ['inputs', 'histories'], 'every query of every class, whatever was called before',
  'A test looks at the answer of one query; a modified object shows in a later one.',
  PKG, [('measurement sets', 'Patro/Measurement/Measurement.py'), ('scenes', 'Patro/GraphicEngine/GraphicScene/Scene.py'),
        ('graphs', 'Patro/Common/Object/DirectedAcyclicGraph.py')],
  'interprocedural, flow-sensitive effect analysis over the syntax trees: aliases of receivers and parameters, stores and modifying calls propagated to a fixed point',
  'Calls through receivers of unknown class are resolved by method name when one class of the package defines it and left out otherwise, so absence of an alarm is no proof there. '
  'Objects modified by third-party code are not seen.')

P('G14', 'Square roots, logarithms and inverse cosines stay in their domain',
  'No measure or intersection of the geometry engine, and no root of a polynomial, takes the square root, the logarithm, the inverse sine or cosine, or a '
  'fractional power of a value computed as a difference, a dot product or a cross product without bounding it first on that path: a comparison excludes the '
  'case (no real root, circles or a line which do not meet), or the value is clamped when only its rounding can leave the domain (cosine of parallel vectors, '
  'scaled radii of an arc, curves with aligned control points). Degenerate and extreme positions so give an answer, never "math domain error" or a complex number.',
  ['inputs'], 'every call of sqrt, log, acos, asin and every fractional power of the package, on every path',
  'The domain is left for tangent, aligned or coincident inputs only, and often by the last bit of a rounding, which a few sampled inputs do not reach.',
  ['Patro/GeometryEngine/*.py', 'Patro/Common/Math/*.py'], [('intersections and measures', 'Patro/GeometryEngine'), ('clamp', 'Patro/Common/Math/Functions.py')],
  'path-sensitive interval analysis of the syntax trees, with interval summaries of the functions and properties',
  'Arguments which are plain parameters or attributes are not judged. Line2D.triangle_projected_point is a recorded finding.')

P('R03', 'Instances share no mutable state through defaults, classes or copies',
  'Two instances, or two calls, never share a list, dictionary, set or modifiable object that came from a parameter default or from a class attribute '
  'and that one of them can modify: no mutable default is modified, kept or returned, no container of a class is modified through an instance. A container given to a constructor and then modified '
  'by the object is copied first, and a copy or clone has modifiable containers of its own.',
  ['histories'], 'every class, any number of instances and calls',
  'Sharing shows only when a second instance is made after the first one was modified, in the same process.',
  PKG, [('classes', 'Patro')],
  'syntax-tree dataflow: defaults and class containers to kept, returned or modified values; containers of constructors and copies',
  'Registries that classes fill on purpose through the class itself or a metaclass are not state of instances.')

NA('A01', 'Iterative solvers converge to the requested precision',
   'The length of a cubic curve, the parameter at a length, the distance to an ellipse and the numeric roots of polynomials differ '
   'from the exact value by less than the declared precision, for curves of any size and flatness.',
   ['inputs'], 'every curve, size and precision',
   'The error depends on the number of steps and on rounding, which a few curves do not bound.',
   [GE + 'Bezier.py', GE + 'Conic.py', 'Patro/Common/Math/Root.py'],
   [('adaptive length', GE + 'Bezier.py:CubicBezier2D.adaptive_length_approximation')],
   'The error is a function of the number of iterations and of floating point rounding at run time: no static argument in reach bounds it. '
   'The formulas of one step are decided by G07, C06 and G11, the domains by G14.')

NA('A02', 'Interactive drawings answer in bounded time and memory',
   'Listing, selecting and redrawing the items of a scene, and evaluating the operations of a sketch, take a time proportional to the '
   'number of items or operations.',
   ['inputs', 'schedules'], 'every scene and sketch, whatever its size',
   'Time on small drawings says nothing of large ones.',
   ['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/Pattern/Sketch.py'],
   [('spatial index', 'Patro/GraphicEngine/GraphicScene/Scene.py')],
   'Running time depends on numpy, rtree and sympy, whose code is not part of the repository, and on sizes known at run time only.')

NA('A03', 'The viewer shows the page, zooms and selects with the mouse',
   'The Qt user interface shows the scene of the application at the zoom and position set by the mouse and the keyboard.',
   ['schedules'], 'every sequence of user events', 'No test drives the user interface.',
   ['Patro/QtApplication/QmlApplication.py', 'Patro/GraphicEngine/Painter/QtPainter.py'],
   [('Qt painter', 'Patro/GraphicEngine/Painter/QtPainter.py')],
   'The behaviour is decided by the Qt event loop and by QML sources which bind names at run time; PyQt is not installed and its '
   'classes cannot be resolved statically. R01 to R03 decide the Python part.')
