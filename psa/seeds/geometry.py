"""Receivers and arguments of the geometry entry points.

This module is never executed: the abstract interpreter analyses it.  Every ``psa_*`` call makes an
unknown value of the given kind.  ``psa_x``/``psa_y`` are coordinates of a position (they move with the
drawing), ``psa_dx``/``psa_dy`` components of a displacement, ``psa_length`` a positive length,
``psa_scalar`` a pure number, ``psa_degrees`` a direction in degrees (turns with the drawing),
``psa_turn`` a relative angle in degrees.
"""

import numpy as np

from IntervalArithmetic import Interval2D, IntervalInt2D

from Patro.GeometryEngine.Bezier import QuadraticBezier2D as _QuadraticBezier2D, CubicBezier2D as _CubicBezier2D
from Patro.GeometryEngine.Conic import Circle2D as _Circle2D, Ellipse2D as _Ellipse2D
from Patro.GeometryEngine.Line import Line2D as _Line2D
from Patro.GeometryEngine.Mixin import AngularDomain as _AngularDomain
from Patro.GeometryEngine.Path import Path2D as _Path2D
from Patro.GeometryEngine.Polygon import Polygon2D as _Polygon2D, RegularPolygon as _RegularPolygon
from Patro.GeometryEngine.Polyline import Polyline2D as _Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D as _Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D as _Segment2D
from Patro.GeometryEngine.Shape.ArrowHead import (
    TriangularHead as _TriangularHead, TriangularCurvyHead as _TriangularCurvyHead)
from Patro.GeometryEngine.Spline import (
    QuadraticUniformSpline2D as _QuadraticUniformSpline2D, CubicUniformSpline2D as _CubicUniformSpline2D,
    BSpline2D as _BSpline2D)
from Patro.GeometryEngine.Transformation import (
    AffineTransformation2D as _AffineTransformation2D, Transformation2D as _Transformation2D)
from Patro.GeometryEngine.Triangle import Triangle2D as _Triangle2D
from Patro.GeometryEngine.Vector import (
    HomogeneousVector2D as _HomogeneousVector2D, NormalisedVector2D as _NormalisedVector2D,
    Vector2D as _Vector2D, Vector2DInt as _Vector2DInt)


def point(tag):
    return _Vector2D(psa_x(tag + '.x'), psa_y(tag + '.y'))

def displacement(tag):
    return _Vector2D(psa_dx(tag + '.x'), psa_dy(tag + '.y'))

def direction(tag):
    return _Vector2D(psa_ux(tag + '.x'), psa_uy(tag + '.y'))

####################################################################################################
# receivers: <class>[__variant](tag)

def Vector2D__point(tag):
    return point(tag)

def Vector2D__displacement(tag):
    return displacement(tag)

def NormalisedVector2D(tag):
    return _NormalisedVector2D(psa_ux(tag + '.x'), psa_uy(tag + '.y'))

def HomogeneousVector2D(tag):
    return _HomogeneousVector2D(point(tag))

def Vector2DInt(tag):
    return _Vector2DInt(psa_int(tag + '.x'), psa_int(tag + '.y'))

def Line2D(tag):
    return _Line2D(point(tag + '.point'), displacement(tag + '.vector'))

def Segment2D(tag):
    return _Segment2D(point(tag + '.p0'), point(tag + '.p1'))

def Polyline2D(tag):
    return _Polyline2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'))

def Triangle2D(tag):
    return _Triangle2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'))

def Rectangle2D(tag):
    return _Rectangle2D(point(tag + '.p0'), point(tag + '.p1'))

def Polygon2D(tag):
    return _Polygon2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'), point(tag + '.p3'))

def RegularPolygon(tag):
    return _RegularPolygon(point(tag + '.center'), psa_length(tag + '.radius'), psa_int(tag + '.n'),
                           psa_degrees(tag + '.angle'))

def RegularPolygon__five(tag):
    return _RegularPolygon(point(tag + '.center'), psa_length(tag + '.radius'), 5, psa_degrees(tag + '.angle'))

def AngularDomain(tag):
    return _AngularDomain(psa_degrees(tag + '.start'), psa_degrees(tag + '.stop'))

def Circle2D(tag):
    return _Circle2D(point(tag + '.center'), psa_length(tag + '.radius'))

def Circle2D__arc(tag):
    return _Circle2D(point(tag + '.center'), psa_length(tag + '.radius'), domain=AngularDomain(tag + '.domain'))

def Circle2D__diameter(tag):
    return _Circle2D(point(tag + '.center'), psa_length(tag + '.diameter'), diameter=True)

def Ellipse2D(tag):
    return _Ellipse2D(point(tag + '.center'), psa_length(tag + '.radius_x'), psa_length(tag + '.radius_y'),
                      psa_degrees(tag + '.angle'))

def Ellipse2D__arc(tag):
    return _Ellipse2D(point(tag + '.center'), psa_length(tag + '.radius_x'), psa_length(tag + '.radius_y'),
                      psa_degrees(tag + '.angle'), AngularDomain(tag + '.domain'))

def QuadraticBezier2D(tag):
    return _QuadraticBezier2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'))

def CubicBezier2D(tag):
    return _CubicBezier2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'), point(tag + '.p3'))

def QuadraticUniformSpline2D(tag):
    return _QuadraticUniformSpline2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'))

def CubicUniformSpline2D(tag):
    return _CubicUniformSpline2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'), point(tag + '.p3'))

def BSpline2D(tag):
    return _BSpline2D((point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'), point(tag + '.p3'),
                       point(tag + '.p4')), 3)

def Transformation2D__rotation(tag):
    return _Transformation2D.Rotation(psa_turn(tag + '.angle'))

def Transformation2D__scale(tag):
    return _Transformation2D.Scale(psa_scalar(tag + '.sx'), psa_scalar(tag + '.sy'))

def AffineTransformation2D__translation(tag):
    return _AffineTransformation2D.Translation(displacement(tag + '.vector'))

def AffineTransformation2D__rotation(tag):
    return _AffineTransformation2D.Rotation(psa_turn(tag + '.angle'))

def AffineTransformation2D__rotation_at(tag):
    return _AffineTransformation2D.RotationAt(point(tag + '.center'), psa_turn(tag + '.angle'))

def Path2D__lines(tag):
    path = _Path2D(point(tag + '.p0'))
    path.line_to(displacement(tag + '.d1'))
    path.line_to(point(tag + '.p2'), absolute=True)
    return path

def Path2D__closed(tag):
    path = _Path2D(point(tag + '.p0'))
    path.line_to(displacement(tag + '.d1'))
    path.line_to(point(tag + '.p2'), radius=psa_length(tag + '.r2'), absolute=True)
    path.close(radius=psa_length(tag + '.r3'), close_radius=psa_length(tag + '.r4'))
    return path

def Path2D__mixed(tag):
    path = _Path2D(point(tag + '.p0'))
    path.horizontal_to(psa_length(tag + '.l1'))
    path.north_east_to(psa_length(tag + '.l2'), radius=psa_length(tag + '.r1'))
    path.vertical_to(psa_length(tag + '.l3'))
    path.quadratic_to(displacement(tag + '.d1'), displacement(tag + '.d2'))
    path.cubic_to(point(tag + '.p3'), point(tag + '.p4'), point(tag + '.p5'), absolute=True)
    path.arc_to(point(tag + '.p6'), psa_length(tag + '.rx'), psa_length(tag + '.ry'), psa_degrees(tag + '.a'),
                psa_bool(tag + '.la'), psa_bool(tag + '.sw'), absolute=True)
    return path

def TriangularHead(tag):
    return _TriangularHead(point(tag + '.point'), direction(tag + '.direction'), psa_length(tag + '.length'),
                           psa_length(tag + '.width'))

def TriangularCurvyHead(tag):
    return _TriangularCurvyHead(point(tag + '.point'), direction(tag + '.direction'), psa_length(tag + '.length'),
                                psa_length(tag + '.width'), psa_scalar(tag + '.curve_depth'))

####################################################################################################
# arguments

def points(tag):
    return [point(tag + '.0'), point(tag + '.1'), point(tag + '.2'), point(tag + '.3')]

def interval2d(tag):
    return Interval2D((psa_x(tag + '.x0'), psa_x(tag + '.x1')), (psa_y(tag + '.y0'), psa_y(tag + '.y1')))
