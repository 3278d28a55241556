"""Uses of the geometry classes, as a client of the library would write them (analysed, never run)."""
from bpypolyskel.bpyeuclid import Line2, Ray2, Edge2, ccw, intersect, fitCircle3Points


def line_line(p, v, q, w):
    return Line2(p, v, 'pv').intersect(Line2(q, w, 'pv'))


def ray_ray(p, v, q, w):
    return Ray2(p, v).intersect(Ray2(q, w))


def line_ray(p, v, q, w):
    return Line2(p, v, 'pv').intersect(Ray2(q, w))


def edge_line(a, b, q, w):
    return Line2(Edge2(a, b)).intersect(Line2(q, w, 'pv'))


def line_distance(p, v, q):
    return Line2(p, v, 'pv').distance(q)


def edge_points(a, b):
    e = Edge2(a, b)
    return (e.p1.x, e.p1.y, e.p2.x, e.p2.y, e.norm.x, e.norm.y, e.length_squared())


def edge_given(a, b, n):
    e = Edge2(a, b, n)
    return (e.p1.x, e.p1.y, e.p2.x, e.p2.y, e.norm.x, e.norm.y, e.length_squared())


def left_turn(a, b, c):
    return ccw(a, b, c)


def segments(a, b, c, d):
    return intersect(a, b, c, d)


def circle(a, b, c):
    return fitCircle3Points([a, b, c])


def edge_indexed(verts, i, j, n, center):
    e = Edge2(i, j, n, verts, center)
    return (e.p1.x, e.p1.y, e.p2.x, e.p2.y, e.norm.x, e.norm.y, e.i1, e.i2)


def edge_indexed_own(verts, i, j, center):
    e = Edge2(i, j, None, verts, center)
    return (e.p1.x, e.p1.y, e.p2.x, e.p2.y, e.norm.x, e.norm.y, e.i1, e.i2)
