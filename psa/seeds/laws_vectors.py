"""Laws of the vectors and transformations, analysed and never executed (see seeds/laws_geometry.py)."""

from math import acos, cos, radians, sin, sqrt

from psa_seeds.geometry import point, displacement, direction

from Patro.GeometryEngine.Transformation import (
    AffineTransformation2D, IncompatibleArrayDimension, Transformation2D, TransformationType)
from Patro.GeometryEngine.Vector import Vector2D, Vector2DInt, NormalisedVector2D, HomogeneousVector2D


def same(p, x, y, label):
    psa_equal(p.x, x, label)
    psa_equal(p.y, y, label)

####################################################################################################
# vectors

def law_G08_arithmetic():
    u, v = displacement('u'), displacement('v')
    k = psa_scalar('k')
    same(u + v, u.x + v.x, u.y + v.y, 'Vector2D.__add__')
    same(u - v, u.x - v.x, u.y - v.y, 'Vector2D.__sub__')
    same(-u, -u.x, -u.y, 'Vector2D.__neg__')
    same(+u, u.x, u.y, 'Vector2D.__pos__')
    same(u*k, u.x*k, u.y*k, 'Vector2D.__mul__')
    same(k*u, u.x*k, u.y*k, 'Vector2D.__rmul__')
    same(u/k, u.x/k, u.y/k, 'Vector2D.__truediv__')
    same(abs(u), abs(u.x), abs(u.y), 'Vector2D.__abs__')

def law_G08_inplace():
    k = psa_scalar('k')
    u, v = displacement('u'), displacement('v')
    x, y = u.x, u.y
    u += v
    same(u, x + v.x, y + v.y, 'Vector2D.__iadd__')
    u = displacement('u')
    u -= v
    same(u, x - v.x, y - v.y, 'Vector2D.__isub__')
    u = displacement('u')
    u *= k
    same(u, x*k, y*k, 'Vector2D.__imul__')
    u = displacement('u')
    u /= k
    same(u, x/k, y/k, 'Vector2D.__itruediv__')
    u = displacement('u')
    u.x = k
    same(u, k, y, 'Vector2D.x=')
    u.y = k + 1
    same(u, k, k + 1, 'Vector2D.y=')
    u[0] = x
    psa_equal(u[0], x, 'Vector2D.__setitem__')
    psa_equal(u[1], k + 1, 'Vector2D.__getitem__')

def law_G08_products():
    u, v = displacement('u'), displacement('v')
    psa_equal(u.dot(v), u.x*v.x + u.y*v.y, 'Vector2D.dot')
    psa_equal(u.cross(v), u.x*v.y - u.y*v.x, 'Vector2D.cross')
    psa_equal(u.perp_dot(v), u.x*v.y - u.y*v.x, 'Vector2D.perp_dot')
    psa_equal(u.magnitude_square, u.x*u.x + u.y*u.y, 'Vector2D.magnitude_square')
    psa_equal(u.magnitude, sqrt(u.x*u.x + u.y*u.y), 'Vector2D.magnitude')
    psa_equal(u.projection_on(v)*v.magnitude, u.dot(v), 'Vector2D.projection_on')
    psa_equal(u.deviation_with(v)*v.magnitude, v.cross(u), 'Vector2D.deviation_with')
    psa_equal(u.cos_with(v)*u.magnitude*v.magnitude, u.dot(v), 'Vector2D.cos_with')
    psa_equal(u.sin_with(v)*u.magnitude*v.magnitude, v.cross(u), 'Vector2D.sin_with')
    psa_equal(u.tan, u.y/u.x, 'Vector2D.tan')
    psa_equal(u.inverse_tan, u.x/u.y, 'Vector2D.inverse_tan')

def law_G08_turns():
    u = displacement('u')
    same(u.normal, -u.y, u.x, 'Vector2D.normal')
    same(u.anti_normal, u.y, -u.x, 'Vector2D.anti_normal')
    same(u.parity, -u.x, -u.y, 'Vector2D.parity')
    same(u.permute, u.y, u.x, 'Vector2D.permute')
    a = psa_turn('a')
    c, s = cos(radians(a)), sin(radians(a))
    same(u.rotate(a), c*u.x - s*u.y, s*u.x + c*u.y, 'Vector2D.rotate')
    same(u.rotate(a, counter_clockwise=False), c*u.x + s*u.y, c*u.y - s*u.x, 'Vector2D.rotate(clockwise)')
    same(u.rotate(90), -u.y, u.x, 'Vector2D.rotate(90)')
    same(u.rotate(180), -u.x, -u.y, 'Vector2D.rotate(180)')

def law_G08_constructors():
    a = psa_turn('a')
    r, q = psa_length('r'), psa_length('q')
    c, s = cos(radians(a)), sin(radians(a))
    same(Vector2D.from_angle(a), c, s, 'Vector2D.from_angle')
    same(Vector2D.from_polar(r, a), r*c, r*s, 'Vector2D.from_polar')
    same(Vector2D.from_ellipse(r, q, a), r*c, q*s, 'Vector2D.from_ellipse')
    u, v = point('u'), point('v')
    same(Vector2D.middle(u, v), (u.x + v.x)/2, (u.y + v.y)/2, 'Vector2D.middle')
    same(Vector2D(u), u.x, u.y, 'Vector2D(vector)')
    same(Vector2D((u.x, v.y)), u.x, v.y, 'Vector2D(sequence)')
    same(u.clone(), u.x, u.y, 'Vector2D.clone')
    x, y = u
    same(u, x, y, 'Vector2D.__iter__')
    psa_equal(len(u), 2, 'Vector2D.__len__')
    ps = Vector2D.from_list([(u.x, u.y), (v.x, v.y)])
    same(ps[0], u.x, u.y, 'Vector2D.from_list')
    same(ps[1], v.x, v.y, 'Vector2D.from_list')
    ps = Vector2D.from_coordinates((u.x, u.y), (v.x, v.y))
    same(ps[1], v.x, v.y, 'Vector2D.from_coordinates')
    psa_other_object(u.clone(), u, 'Vector2D.clone is another object')
    psa_other_object(u.clone()._v, u._v, 'Vector2D.clone has its own coordinates')

def law_G08_scale():
    u = displacement('u')
    a, b = psa_scalar('a'), psa_scalar('b')
    same(u.scale(a, b), u.x*a, u.y*b, 'Vector2D.scale')
    same(u.divide(a, b), u.x/a, u.y/b, 'Vector2D.divide')
    n = u.to_normalised()
    psa_equal(n.x*u.magnitude, u.x, 'Vector2D.to_normalised')
    psa_equal(n.y*u.magnitude, u.y, 'Vector2D.to_normalised')
    psa_equal(n.magnitude, 1, 'Vector2D.to_normalised')
    v = displacement('u')
    v.normalise()
    psa_equal(v.x*u.magnitude, u.x, 'Vector2D.normalise')
    psa_equal(v.y*u.magnitude, u.y, 'Vector2D.normalise')

def law_G08_orientation():
    x, y = psa_positive('x'), psa_positive('y')
    t = sqrt(x*x + y*y)
    for u, v in ((x, y), (-x, y), (x, -y), (-x, -y)):
        a = radians(Vector2D(u, v).orientation)
        psa_equal(cos(a)*t, u, 'Vector2D.orientation')
        psa_equal(sin(a)*t, v, 'Vector2D.orientation')
    psa_equal(Vector2D(x, 0).orientation, 0, 'Vector2D.orientation (east)')
    psa_equal(Vector2D(0, y).orientation, 90, 'Vector2D.orientation (north)')
    psa_equal(Vector2D(-x, 0).orientation, 180, 'Vector2D.orientation (west)')
    psa_equal(Vector2D(0, -y).orientation, -90, 'Vector2D.orientation (south)')

def law_G08_angle_with():
    # a turn of less than half a circle
    a = psa_positive_number('a')
    u, v = displacement('u'), displacement('v')
    c, s = u.cos_with(v), u.sin_with(v)
    psa_equal(abs(u.angle_with(v)), abs(v.angle_with(u)), 'Vector2D.angle_with is antisymmetric up to sign')
    psa_equal(cos(radians(u.angle_with(v)))*u.magnitude*v.magnitude, u.dot(v), 'Vector2D.angle_with')
    x, y = psa_positive('x'), psa_positive('y')
    e = Vector2D(x, 0)
    f = Vector2D(x, y)
    psa_positive_value(f.angle_with(e), 'Vector2D.angle_with')
    psa_negative_value(e.angle_with(f), 'Vector2D.angle_with')

def law_G08_tests():
    u = displacement('u')
    k = psa_positive_number('k')
    v = u*k
    psa_true(u.is_parallel(v), 'Vector2D.is_parallel')
    psa_true(u.is_orthogonal(u.normal), 'Vector2D.is_orthogonal')
    psa_true(not u.is_parallel(u.normal), 'Vector2D.is_parallel of a normal')
    psa_true(not u.is_orthogonal(v), 'Vector2D.is_orthogonal of a parallel')
    psa_equal(u.is_parallel(v, return_cross=True)[1], 0, 'Vector2D.is_parallel(return_cross)')
    psa_true(u == u.clone(), 'Vector2D.__eq__')
    psa_true(u.almost_equal(u.clone()), 'Vector2D.almost_equal')

def law_G08_homogeneous():
    p = point('p')
    h = HomogeneousVector2D(p)
    same(h.to_vector(), p.x, p.y, 'HomogeneousVector2D.to_vector')
    psa_equal(h.w, 1, 'HomogeneousVector2D.w')
    v = h.v
    psa_equal(v[0], p.x, 'HomogeneousVector2D.v')
    psa_equal(v[1], p.y, 'HomogeneousVector2D.v')
    psa_equal(v[2], 1, 'HomogeneousVector2D.v')

def law_G08_concrete_tests():
    # signs, order of the operands and magnitude of the differences
    for x, y in ((3, 4), (-3, 4), (3, -4), (-3, -4)):
        u = Vector2D(x, y)
        psa_true(u == Vector2D(x, y), 'Vector2D.__eq__')
        for v in (Vector2D(-x, y), Vector2D(x, -y), Vector2D(-x, -y), Vector2D(y, x), Vector2D(x + 1, y), Vector2D(x, y + 1),
                  Vector2D(x + 1e-9, y)):
            psa_true(not u == v, 'Vector2D.__eq__ of different vectors')
            psa_true(u != v, 'Vector2D.__ne__ of different vectors')
        psa_true(u.almost_equal(Vector2D(x + 1e-9, y)), 'Vector2D.almost_equal')
        for v in (Vector2D(-x, y), Vector2D(x, -y), Vector2D(x + .01, y), Vector2D(x, y - .01)):
            psa_true(not u.almost_equal(v), 'Vector2D.almost_equal of different vectors')
        psa_true(u.almost_equal(Vector2D(x + .01, y), 0, .1), 'Vector2D.almost_equal (absolute tolerance)')
        psa_true(not u.almost_equal(Vector2D(x + .01, y), 0, .001), 'Vector2D.almost_equal (absolute tolerance)')
        big = Vector2D(1000*x, 1000*y)
        psa_true(not big.almost_equal(big + Vector2D(.5, 0), 0, .1), 'Vector2D.almost_equal (absolute tolerance)')
        psa_true(big.almost_equal(big + Vector2D(.5, 0), .1, 0), 'Vector2D.almost_equal (relative tolerance)')
        psa_true(u.almost_equal(Vector2D(x*1.01, y), .1, 0), 'Vector2D.almost_equal (relative tolerance)')
        psa_true(not u.almost_equal(Vector2D(x*1.01, y), .001, 0), 'Vector2D.almost_equal (relative tolerance)')
        for k in (2, -2, .5, -1):
            psa_true(u.is_parallel(u*k), 'Vector2D.is_parallel of a multiple')
            psa_true(u.is_orthogonal(u.normal*k), 'Vector2D.is_orthogonal of the normal')
        for v in (u.normal, u.anti_normal, Vector2D(x + 1, y), Vector2D(x - 1, y), Vector2D(x, y + .1), Vector2D(x, y - .1)):
            psa_true(not u.is_parallel(v), 'Vector2D.is_parallel of another direction')
            test, product = u.is_parallel(v, return_cross=True)
            psa_true(not test, 'Vector2D.is_parallel (return_cross)')
            psa_equal(product, u.cross(v), 'Vector2D.is_parallel (return_cross)')
        for v in (u, -u, u.normal + Vector2D(.1, 0), u.normal - Vector2D(0, .1)):
            psa_true(not u.is_orthogonal(v), 'Vector2D.is_orthogonal of another direction')

def law_G08_orientation_slopes():
    for a, b in ((1, 5), (5, 1), (1, 1), (.25, .5)):
        for x, y in ((a, b), (-a, b), (a, -b), (-a, -b)):
            u = Vector2D(x, y)
            t = u.magnitude
            o = u.orientation
            psa_equal(cos(radians(o))*t, x, 'Vector2D.orientation')
            psa_equal(sin(radians(o))*t, y, 'Vector2D.orientation')
            psa_true(0 < o < 90 if x > 0 and y > 0 else
                     90 < o < 180 if y > 0 else
                     -90 < o < 0 if x > 0 else -180 < o < -90, 'Vector2D.orientation quadrant')
    for r in (1, .25, 7):
        psa_equal(Vector2D(r, 0).orientation, 0, 'Vector2D.orientation (east)')
        psa_equal(Vector2D(0, r).orientation, 90, 'Vector2D.orientation (north)')
        psa_equal(Vector2D(-r, 0).orientation, 180, 'Vector2D.orientation (west)')
        psa_equal(Vector2D(0, -r).orientation, -90, 'Vector2D.orientation (south)')

def law_G08_concrete_angles():
    # the turn from the direction to the vector
    e = Vector2D(2, 0)
    psa_equal(Vector2D(3, 0).angle_with(e), 0, 'Vector2D.angle_with (same direction)')
    psa_equal(Vector2D(0, 3).angle_with(e), 90, 'Vector2D.angle_with (quarter turn)')
    psa_equal(Vector2D(0, -3).angle_with(e), -90, 'Vector2D.angle_with (clockwise quarter turn)')
    psa_equal(e.angle_with(Vector2D(0, 3)), -90, 'Vector2D.angle_with (clockwise quarter turn)')
    psa_equal(Vector2D(0, -3).angle_with(Vector2D(-1, 0)), 90, 'Vector2D.angle_with (quarter turn)')
    psa_equal(Vector2D(0, 3).orientation_with(e), 90, 'Vector2D.orientation_with')
    psa_equal(abs(Vector2D(-3, 0).angle_with(e)), 180, 'Vector2D.angle_with (opposite directions)')
    psa_equal(abs(Vector2D(0, 3).angle_with(Vector2D(0, -1))), 180, 'Vector2D.angle_with (opposite directions)')
    psa_equal(Vector2D(3, 4).cos_with(Vector2D(10, 0)), .6, 'Vector2D.cos_with')
    psa_equal(Vector2D(30, 40).sin_with(Vector2D(10, 0)), .8, 'Vector2D.sin_with')
    psa_equal(Vector2D(10, 0).sin_with(Vector2D(3, 4)), -.8, 'Vector2D.sin_with')
    psa_equal(Vector2D(-3, 4).cos_with(Vector2D(10, 0)), -.6, 'Vector2D.cos_with')
    psa_equal(Vector2D(-3, 4).projection_on(Vector2D(10, 0)), -3, 'Vector2D.projection_on')
    psa_equal(Vector2D(-3, 4).deviation_with(Vector2D(10, 0)), 4, 'Vector2D.deviation_with')
    psa_equal(Vector2D(-3, -4).deviation_with(Vector2D(10, 0)), -4, 'Vector2D.deviation_with')

def law_G08_turns_of_any_angle():
    u = Vector2D(3, 4)
    for n in (-2, -1, 0, 1, 2):
        for angle, x, y in ((0, 3, 4), (90, -4, 3), (180, -3, -4), (270, 4, -3), (-90, 4, -3), (-180, -3, -4)):
            same(u.rotate(angle + n*360), x, y, 'Vector2D.rotate ({})'.format(angle + n*360))
            same(u.rotate(-angle - n*360, counter_clockwise=False), x, y, 'Vector2D.rotate clockwise')
    for angle, x, y in ((0, 1, 0), (90, 0, 1), (180, -1, 0), (270, 0, -1), (-90, 0, -1), (450, 0, 1)):
        same(Vector2D.from_angle(angle), x, y, 'Vector2D.from_angle')
        same(Vector2D.from_polar(3, angle), 3*x, 3*y, 'Vector2D.from_polar')
        same(Vector2D.from_polar(-3, angle), -3*x, -3*y, 'Vector2D.from_polar (negative radius)')
        same(Vector2D.from_polar(0, angle), 0, 0, 'Vector2D.from_polar (null radius)')
        same(Vector2D.from_ellipse(3, 2, angle), 3*x, 2*y, 'Vector2D.from_ellipse')

def law_G08_zero_and_negative_factors():
    u = Vector2D(3, -4)
    for a, b in ((0, 2), (2, 0), (0, 0), (-1, 2), (2, -1), (1, 1)):
        same(u.scale(a, b), 3*a, -4*b, 'Vector2D.scale ({}, {})'.format(a, b))
        same(u, 3, -4, 'Vector2D.scale leaves the vector')
        if a and b:
            same(u.divide(a, b), 3/a, -4/b, 'Vector2D.divide')
            same(u, 3, -4, 'Vector2D.divide leaves the vector')
    for k in (0, -1, .5, 2):
        same(u*k, 3*k, -4*k, 'Vector2D.__mul__ ({})'.format(k))
        same(k*u, 3*k, -4*k, 'Vector2D.__rmul__ ({})'.format(k))
        if k:
            same(u/k, 3/k, -4/k, 'Vector2D.__truediv__ ({})'.format(k))
    for k in (.01, .1, 1, 20):
        v = u*k
        w = v.to_normalised()
        same(w, .6, -.8, 'Vector2D.to_normalised (magnitude {})'.format(5*k))
        same(v, 3*k, -4*k, 'Vector2D.to_normalised leaves the vector')
        same(w*2, 1.2, -1.6, 'NormalisedVector2D.__mul__')
        same(2*w, 1.2, -1.6, 'NormalisedVector2D.__rmul__')
        same(v.normalise(), .6, -.8, 'Vector2D.normalise (magnitude {})'.format(5*k))
        same(v, .6, -.8, 'Vector2D.normalise (magnitude {})'.format(5*k))

def law_G08_identity_of_results():
    # in-place operators change and give the vector itself, others give another vector
    u = Vector2D(3, 4)
    v = u
    u += Vector2D(1, 1)
    psa_same_object(u, v, 'Vector2D.__iadd__ changes the vector itself')
    u -= Vector2D(1, 1)
    psa_same_object(u, v, 'Vector2D.__isub__ changes the vector itself')
    u *= 2
    psa_same_object(u, v, 'Vector2D.__imul__ changes the vector itself')
    same(v, 6, 8, 'Vector2D.__imul__')
    u /= 4
    psa_same_object(u, v, 'Vector2D.__itruediv__ changes the vector itself')
    same(v, 1.5, 2, 'Vector2D.__itruediv__')
    psa_same_object(u.normalise(), u, 'Vector2D.normalise gives the vector itself')
    u = Vector2D(3, 4)
    copies = (('clone', u.clone()), ('__pos__', +u), ('Vector2D(vector)', Vector2D(u)), ('Vector2D(array)', Vector2D(u.v)),
              ('scale', u.scale(1, 1)), ('divide', u.divide(1, 1)), ('to_vector', HomogeneousVector2D(u).to_vector()),
              ('HomogeneousVector2D', HomogeneousVector2D(u)), ('__mul__', u*1), ('__truediv__', u/1), ('__abs__', abs(u)),
              ('middle', Vector2D.middle(u, u)), ('from_list', Vector2D.from_list([u])[0]))
    for name, w in copies:
        psa_other_object(w, u, 'Vector2D.{} gives another vector'.format(name))
    u.x = 30
    u.y = 40
    for name, w in copies:
        same(w, 3, 4, 'Vector2D.{} gives a vector which does not follow the original'.format(name))
    for name, w in copies:
        w.x = .25
        w[1] = -.5
        same(w, .25, -.5, 'coordinates of a vector')
    same(u, 30, 40, 'a vector does not follow its copies')

def law_G08_sequences():
    ps = Vector2D.from_list([(3, 4), (1, 2), (3, 4), (5, 6)])
    psa_equal(len(ps), 4, 'Vector2D.from_list keeps the repeated points')
    for p, (x, y) in zip(ps, ((3, 4), (1, 2), (3, 4), (5, 6))):
        same(p, x, y, 'Vector2D.from_list keeps the order')
    ps = Vector2D.from_coordinates((3, 4), (1, 2), (3, 4))
    psa_equal(len(ps), 3, 'Vector2D.from_coordinates keeps the repeated points')
    psa_equal(Vector2D.from_list([]), [], 'Vector2D.from_list of nothing')
    for x, y, i, j in ((1.2, 2.7, 1, 2), (-1.2, -2.7, -1, -2), (3, 4, 3, 4)):
        l = Vector2D(x, y).to_int_list()
        psa_equal(l, [i, j], 'Vector2D.to_int_list truncates')
        same(Vector2D(x, y), x, y, 'Vector2D keeps the fractional part')
    for args in ((), (1, 2, 3), (1,), ((1, 2, 3),), ((1,),)):
        try:
            Vector2D(*args)
            refused = False
        except ValueError:
            refused = True
        psa_true(refused, 'Vector2D refuses another number of coordinates')

####################################################################################################
# transformations

def law_G09_rotation():
    v = displacement('v')
    a = psa_turn('a')
    c, s = cos(radians(a)), sin(radians(a))
    same(Transformation2D.Rotation(a)*v, c*v.x - s*v.y, s*v.x + c*v.y, 'Transformation2D.Rotation')
    same(AffineTransformation2D.Rotation(a)*v, c*v.x - s*v.y, s*v.x + c*v.y, 'AffineTransformation2D.Rotation')
    psa_equal(Transformation2D.Rotation(a)*v, v.rotate(a), 'Transformation2D.Rotation agrees with Vector2D.rotate')
    psa_equal(Transformation2D.Rotation(a)*psa_length('l'), psa_length('l'), 'a length is not changed by a Rotation')

def law_G09_scale():
    v = displacement('v')
    a, b = psa_scalar('a'), psa_scalar('b')
    same(Transformation2D.Scale(a, b)*v, a*v.x, b*v.y, 'Transformation2D.Scale')
    same(Transformation2D.Scale(a)*v, a*v.x, a*v.y, 'Transformation2D.Scale(uniform)')
    same(AffineTransformation2D.Scale(a, b)*v, a*v.x, b*v.y, 'AffineTransformation2D.Scale')
    same(Transformation2D.Parity()*v, -v.x, -v.y, 'Transformation2D.Parity')
    same(Transformation2D.XReflection()*v, -v.x, v.y, 'Transformation2D.XReflection')
    same(Transformation2D.YReflection()*v, v.x, -v.y, 'Transformation2D.YReflection')
    same(Transformation2D.Identity()*v, v.x, v.y, 'Transformation2D.Identity')
    same(AffineTransformation2D.Identity()*v, v.x, v.y, 'AffineTransformation2D.Identity')
    l = psa_length('l')
    k = psa_positive_number('k')
    psa_equal(Transformation2D.Scale(k, k)*l, k*l, 'a length is scaled by a Scale')
    psa_equal(Transformation2D.Scale(-k, -k)*l, k*l, 'a length stays positive')
    psa_equal(AffineTransformation2D.Scale(k, k)*l, k*l, 'a length is scaled by an affine Scale')

def law_G09_translation():
    p = point('p')
    d = displacement('d')
    same(AffineTransformation2D.Translation(d)*p, p.x + d.x, p.y + d.y, 'AffineTransformation2D.Translation')
    c = point('c')
    a = psa_turn('a')
    cs, sn = cos(radians(a)), sin(radians(a))
    r = AffineTransformation2D.RotationAt(c, a)
    same(r*p, c.x + cs*(p.x - c.x) - sn*(p.y - c.y), c.y + sn*(p.x - c.x) + cs*(p.y - c.y),
         'AffineTransformation2D.RotationAt')
    same(r*c, c.x, c.y, 'AffineTransformation2D.RotationAt keeps its center')
    h = psa_length('h')
    same(AffineTransformation2D.Screen(h)*p, p.x, h - p.y, 'AffineTransformation2D.Screen')
    psa_equal(AffineTransformation2D.Translation(d)*psa_length('l'), psa_length('l'),
              'a length is not changed by a Translation')
    psa_equal(r*psa_length('l'), psa_length('l'), 'a length is not changed by a RotationAt')
    q = AffineTransformation2D.Translation(d)*HomogeneousVector2D(p)
    same(q, p.x + d.x, p.y + d.y, 'AffineTransformation2D applied to a homogeneous vector')

def law_G09_composition():
    p = point('p')
    a, b = psa_turn('a'), psa_turn('b')
    k, l = psa_scalar('k'), psa_scalar('l')
    d = displacement('d')
    r = AffineTransformation2D.Rotation(a)
    s = AffineTransformation2D.Scale(k, l)
    t = AffineTransformation2D.Translation(d)
    psa_equal((r*s)*p, r*(s*p), 'Transformation.__mul__ (rotation, scale)')
    psa_equal((t*r)*p, t*(r*p), 'Transformation.__mul__ (translation, rotation)')
    psa_equal((r*t)*p, r*(t*p), 'Transformation.__mul__ (rotation, translation)')
    psa_equal((s*t)*p, s*(t*p), 'Transformation.__mul__ (scale, translation)')
    e = displacement('e')
    u = AffineTransformation2D.Translation(e)
    psa_equal((t*u)*p, t*(u*p), 'Transformation.__mul__ (translation, translation)')
    i = AffineTransformation2D.Identity()
    psa_equal((i*t)*p, t*p, 'Transformation.__mul__ (identity, translation)')
    psa_equal((t*i)*p, t*p, 'Transformation.__mul__ (translation, identity)')
    r2 = Transformation2D.Rotation(a)
    s2 = Transformation2D.Scale(k, l)
    psa_equal((r2*s2)*p, r2*(s2*p), 'Transformation.__mul__ (2x2)')
    # T *= U applies U after T
    m = AffineTransformation2D.Rotation(a)
    m *= t
    psa_equal(m*p, t*(r*p), 'Transformation.__imul__ (rotation then translation)')
    m = AffineTransformation2D.Translation(d)
    m *= s
    psa_equal(m*p, s*(t*p), 'Transformation.__imul__ (translation then scale)')
    m = AffineTransformation2D.Translation(d)
    m *= i
    psa_equal(m*p, t*p, 'Transformation.__imul__ (identity)')
    m = AffineTransformation2D.Identity()
    m *= t
    psa_equal(m*p, t*p, 'Transformation.__imul__ (from identity)')

def law_G09_arrays():
    a, b, c, d = psa_scalar('a'), psa_scalar('b'), psa_scalar('c'), psa_scalar('d')
    v = displacement('v')
    m = Transformation2D((a, b, c, d))
    same(m*v, a*v.x + b*v.y, c*v.x + d*v.y, 'Transformation2D(matrix)')
    n = Transformation2D(m)
    same(n*v, a*v.x + b*v.y, c*v.x + d*v.y, 'Transformation2D(transformation)')
    psa_other_object(n.array, m.array, 'Transformation2D(transformation) copies the matrix')
    l = m.to_list()
    psa_equal(l[0], a, 'Transformation.to_list')
    psa_equal(l[1], b, 'Transformation.to_list')
    psa_equal(l[2], c, 'Transformation.to_list')
    psa_equal(l[3], d, 'Transformation.to_list')
    psa_equal(m.dimension, 2, 'Transformation.dimension')
    psa_equal(m.size, 2, 'Transformation.size')
    psa_equal(AffineTransformation2D.Identity().size, 3, 'AffineTransformation2D.size')

def law_G09_types():
    a = psa_turn('a')
    p = point('p')
    d = displacement('d')
    psa_true(Transformation2D.Identity().is_identity, 'Transformation2D.Identity is_identity')
    psa_true(AffineTransformation2D.Identity().is_identity, 'AffineTransformation2D.Identity is_identity')
    psa_true(not Transformation2D.Parity().is_identity, 'Transformation2D.Parity is not the identity')
    psa_true(not AffineTransformation2D.Translation(d).is_identity, 'a Translation is not the identity')
    psa_true(not Transformation2D.Rotation(a).is_identity, 'a Rotation is not the identity')
    psa_true((Transformation2D.Parity()*Transformation2D.Parity()).is_identity, 'Parity twice is the identity')
    psa_true((Transformation2D.XReflection()*Transformation2D.XReflection()).is_identity, 'XReflection twice is the identity')
    psa_true((Transformation2D.YReflection()*Transformation2D.YReflection()).is_identity, 'YReflection twice is the identity')
    psa_true(Transformation2D.Scale(1, 1).is_identity, 'Scale(1, 1) is the identity')
    t = AffineTransformation2D.Translation(d)*AffineTransformation2D.Translation(d)
    psa_true(not t.is_identity, 'two translations are not the identity')
    r = AffineTransformation2D.Translation(d)*AffineTransformation2D.Rotation(a)
    psa_true(not r.is_identity, 'a translation after a rotation is not the identity')
    # two different parities are a rotation of half a turn
    x = Transformation2D.XReflection()*Transformation2D.YReflection()
    psa_true(not x.is_identity, 'two reflections on different axes are not the identity')
    # a rotation and a reflection
    y = Transformation2D.Rotation(a)*Transformation2D.XReflection()
    psa_true(not y.is_identity, 'a rotation of a reflection is not the identity')

SCALES = ((1, 1, 'Identity'), (-1, -1, 'Parity'), (-1, 1, 'XParity'), (1, -1, 'YParity'), (2, 2, 'Scale'), (-3, -3, 'Scale'),
          (2, 3, 'Shear'), (1, 2, 'Shear'), (2, 1, 'Shear'), (-1, 2, 'Shear'), (2, -1, 'Shear'), (2, -2, 'Shear'), (-2, 2, 'Shear'),
          (1, -2, 'Shear'))

def law_G09_scale_types():
    p = point('p')
    length = psa_length('l')
    for x, y, name in SCALES:
        kind = getattr(TransformationType, name)
        label = 'the scale ({}, {})'.format(x, y)
        psa_equal(Transformation2D.type_for_scale(x, y), kind, label + ' has the type ' + name)
        for t in (Transformation2D.Scale(x, y), AffineTransformation2D.Scale(x, y)):
            psa_equal(t.type, kind, label + ' has the type ' + name)
            psa_equal(t.is_identity, name == 'Identity', label + ' is_identity')
            same(t*p, x*p.x, y*p.y, label)
            if abs(x) == abs(y):
                psa_equal(t*length, abs(x)*length, label + ' of a length')
    for x, y in ((2, 0), (0, 2), (0, 0)):
        for t in (Transformation2D.Scale(x, y), AffineTransformation2D.Scale(x, y)):
            same(t*p, x*p.x, y*p.y, 'the degenerate scale ({}, {})'.format(x, y))
            psa_equal(t.is_identity, False, 'a degenerate scale is not the identity')
    for x, name in ((1, 'Identity'), (-1, 'Parity'), (2, 'Scale')):
        psa_equal(Transformation2D.Scale(x).type, getattr(TransformationType, name), 'a single scale')
        same(Transformation2D.Scale(x)*p, x*p.x, x*p.y, 'a single scale')

def law_G09_matrix_types():
    p = point('p')
    d = displacement('d')
    for x, y, name in SCALES:
        # the matrix of a shear is generic
        kind = getattr(TransformationType, 'Generic' if name == 'Shear' else name)
        label = 'the matrix ({}, 0, 0, {})'.format(x, y)
        psa_equal(Transformation2D.check_matrix_type((x, 0, 0, y)), kind, label)
        psa_equal(Transformation2D((x, 0, 0, y)).type, kind, label)
        psa_equal(AffineTransformation2D((x, 0, 0, 0, y, 0, 0, 0, 1)).type, kind, label + ' affine')
        for a, b in ((5, 0), (0, 5), (5, 6)):
            psa_equal(Transformation2D.check_matrix_type((x, a, b, y)), TransformationType.Generic, 'a matrix out of the diagonal')
        for a, b in ((d.x, 0), (0, d.y), (d.x, d.y)):
            t = AffineTransformation2D((x, 0, a, 0, y, b, 0, 0, 1))
            kind = TransformationType.Translation if name == 'Identity' else TransformationType.Generic
            psa_equal(t.type, kind, 'a matrix with a translation')
            same(t*p, x*p.x + a, y*p.y + b, 'a matrix with a translation')

def law_G09_inverses():
    # products of opposite translations, inverse scales, and of each scale with itself
    p = point('p')
    d = displacement('d')
    t = AffineTransformation2D.Translation(d)*AffineTransformation2D.Translation(-d)
    same(t*p, p.x, p.y, 'opposite translations')
    for x, y, name in SCALES:
        for cls in (Transformation2D, AffineTransformation2D):
            t = cls.Scale(x, y)
            u = t*t
            same(u*p, x*x*p.x, y*y*p.y, 'a scale twice')
            if name not in ('Identity', 'Parity', 'XParity', 'YParity'):
                psa_true(not u.is_identity, 'a scale twice is not the identity')
            t *= cls.Scale(x, y)
            same(t*p, x*x*p.x, y*y*p.y, 'a scale twice in place')
            if name not in ('Identity', 'Parity', 'XParity', 'YParity'):
                psa_true(not t.is_identity, 'a scale twice in place is not the identity')
            for x2, y2, name2 in (SCALES[2:3] + SCALES[4:5] + SCALES[-1:]):
                u = cls.Scale(x, y)*cls.Scale(x2, y2)
                same(u*p, x*x2*p.x, y*y2*p.y, 'two scales')
                if (x*x2, y*y2) != (1, 1):
                    psa_true(not u.is_identity, 'two scales are not the identity')
                u = cls.Scale(x, y)
                u *= cls.Scale(x2, y2)
                same(u*p, x*x2*p.x, y*y2*p.y, 'two scales in place')
                if (x*x2, y*y2) != (1, 1):
                    psa_true(not u.is_identity, 'two scales in place are not the identity')

def law_G09_types_in_place():
    a = psa_degrees('a')
    t = AffineTransformation2D.Translation(Vector2D(3, 4))
    t *= AffineTransformation2D.Translation(Vector2D(-3, -4))
    psa_true(t.is_identity, 'opposite translations in place are the identity')
    t = AffineTransformation2D.Translation(Vector2D(3, 4))
    t *= AffineTransformation2D.Scale(-1, -1)
    t *= AffineTransformation2D.Scale(-1, -1)
    psa_true(not t.is_identity, 'a translation and two reflections in place are not the identity')
    for cls in (Transformation2D, AffineTransformation2D):
        r = cls.Rotation(a)
        r *= cls.Rotation(a)
        psa_equal(r.type, TransformationType.Rotation, 'two rotations in place are a rotation')
        psa_equal((cls.Rotation(a)*cls.Rotation(a)).type, TransformationType.Rotation, 'two rotations are a rotation')
        s = cls.Scale(2, 2)
        s *= cls.Scale(3, 3)
        psa_equal(s.type, TransformationType.Scale, 'two scales in place are a scale')
        i = cls.Identity()
        i *= cls.Rotation(a)
        psa_true(not i.is_identity, 'a rotation of the identity in place')

def law_G09_lengths():
    # the image of a length is defined when the frame keeps its shape
    x = psa_length('x')
    for matrix, factor in (((0, -2, 2, 0), 2), ((3, -4, 4, 3), 5), ((3, 4, 4, -3), 5), ((2, 0, 0, 2), 2),
                           ((-2, 0, 0, -2), 2), ((-1, 0, 0, 1), 1), ((1, 0, 0, -1), 1), ((1, 0, 0, 1), 1)):
        psa_equal(Transformation2D(matrix)*x, factor*x, 'the image of a length')
        a, b, c, d = matrix
        psa_equal(AffineTransformation2D((a, b, 7, c, d, 8, 0, 0, 1))*x, factor*x, 'the image of a length (affine)')
    for a, b, c, d in ((5, 3, 0, 4), (5, 4, 0, 3), (0, -3, 2, 0), (2, 0, 0, 3), (0, 2, 3, 0)):
        for t in (Transformation2D((a, b, c, d)), AffineTransformation2D((a, b, 7, c, d, 8, 0, 0, 1))):
            failed = False
            try:
                t*x
            except ValueError:
                failed = True
            psa_true(failed, 'the image of a length by the frame {} {} {} {}'.format(a, b, c, d))

def law_G09_bad_objects():
    for cls, size in ((Transformation2D, 4), (AffineTransformation2D, 9)):
        for count in (size - 1, size + 1, 1):
            failed = False
            try:
                cls([0]*count)
            except IncompatibleArrayDimension:
                failed = True
            psa_true(failed, cls.__name__ + ' of a list of a wrong size')
    failed = False
    try:
        Transformation2D(AffineTransformation2D.Identity())
    except IncompatibleArrayDimension:
        failed = True
    psa_true(failed, 'Transformation2D of an affine transformation')
    failed = False
    try:
        AffineTransformation2D(Transformation2D.Identity())
    except IncompatibleArrayDimension:
        failed = True
    psa_true(failed, 'AffineTransformation2D of a linear transformation')

def law_G08_box():
    p = point('p')
    b = p.bounding_box
    psa_equal((b.x.inf, b.x.sup), (p.x, p.x), 'Vector2D.bounding_box')
    psa_equal((b.y.inf, b.y.sup), (p.y, p.y), 'Vector2D.bounding_box')
    q = Vector2DInt(psa_int('m'), psa_int('n'))
    b = q.bounding_box
    psa_equal((b.x.inf, b.x.sup), (q.x, q.x), 'Vector2DInt.bounding_box')
    psa_equal((b.y.inf, b.y.sup), (q.y, q.y), 'Vector2DInt.bounding_box')

def law_G08_arguments():
    p = point('p')
    for arguments in ((), (1, 2, 3), ((1, 2, 3),), ((1,),), (1,)):
        failed = False
        try:
            Vector2D(*arguments)
        except ValueError:
            failed = True
        except TypeError:
            failed = True
        psa_true(failed, 'Vector2D of a wrong number of coordinates')
    for v in (Vector2D(p), Vector2D((p.x, p.y)), Vector2D([p.x, p.y]), Vector2D(p.v), Vector2D(p.x, p.y), p.clone()):
        same(v, p.x, p.y, 'Vector2D of the same coordinates')
        psa_other_object(v, p, 'Vector2D of the same coordinates')
        psa_other_object(v.v, p.v, 'Vector2D of the same coordinates (own array)')
        psa_true(v == p, 'Vector2D ==')
        psa_true(not v == p + displacement('d'), 'Vector2D == of another point')
