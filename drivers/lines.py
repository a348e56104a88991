"""C17 C34: straight lines."""
from _driver_common import Src
from curvepy import Curve, Line
import curvepy.trend as trend
from intervalpy import Interval
import math


def c17_from_const():
    """C28"""
    c, m, x = num("c"), num("m"), num("x")
    l = Line(const=c, slope=m)
    same(l.y(x), c + m * x, "the line of a constant and a slope")
    same(l.const, c, "const is the value at 0")
    same(l.slope, m, "slope")
    same(l.d_y(x), m, "the slope everywhere")
    same(l.d_y(x, forward=True), m, "the slope everywhere, forward")
    check(l.domain == Interval.infinite(), "a line is defined everywhere")


def c17_from_points():
    a, b, c, d, x = num("a"), num("b"), num("c"), num("d"), num("x")
    assume(a != c)
    for l in [Line(p1=(a, b), p2=(c, d)), Line(points=[(a, b), (c, d)]), Line(p2=(c, d), p1=(a, b))]:
        same(l.y(a), b, "through the first point")
        same(l.y(c), d, "through the second point")
        same(l.y(x), b + (d - b) * (x - a) / (c - a), "straight between them")
        same(l.d_y(x), (d - b) / (c - a), "the slope of two points")


def c17_from_point_and_slope():
    a, b, m, x = num("a"), num("b"), num("m"), num("x")
    l = Line(p1=(a, b), slope=m)
    same(l.y(a), b, "through the point")
    same(l.y(x), b + m * (x - a), "with the slope")


def c17_from_const_and_point():
    """the constant is the point at 0"""
    c, a, b, x = num("c"), num("a"), num("b"), num("x")
    assume(a != 0)
    l = Line(const=c, p2=(a, b))
    same(l.y(0), c, "through the constant")
    same(l.y(a), b, "through the point")


def c17_vertical():
    a, b, d = num("a"), num("b"), num("d")
    l = Line(p1=(a, b), p2=(a, d))
    if d >= b:
        same(l.slope, math.inf, "a rising vertical line has an infinite slope")
    else:
        same(l.slope, -math.inf, "a falling vertical line has an infinite slope")


def c17_zero_parts():
    """C10"""
    l = Line(const=0, slope=0)
    x = num("x")
    same(l.y(x), 0, "the zero line")
    m = Line(p1=(0, 0), slope=num("m"))
    same(m.y(x), num("m") * x, "a line through the origin")
    n = Line(const=num("c"), slope=0)
    same(n.y(x), num("c"), "a horizontal line")
    o = Line(p1=(0, num("c")), p2=(num("k") + 0, 0)) if num("k") != 0 else None
    if o is not None:
        same(o.y(0), num("c"), "zero coordinates are coordinates")
        same(o.y(num("k")), 0, "zero coordinates are coordinates, second point")


def c17_set_again():
    """C01"""
    l = Line(const=num("c"), slope=num("m"))
    a, b, n, x = num("a"), num("b"), num("n"), num("x")
    l.set(p1=(a, b), slope=n)
    same(l.y(x), b + n * (x - a), "a line set again from a point and a slope")
    l.set(const=num("k"), slope=num("j"))
    same(l.y(x), num("k") + num("j") * x, "a line set again from a constant and a slope")
    assume(a != num("e"))
    l.set(p1=(a, b), p2=(num("e"), num("f")))
    same(l.y(num("e")), num("f"), "a line set again from two points")
    same(l.y(a), b, "a line set again from two points, first")


def c17_set_one_part():
    """a change of the slope alone or of the constant alone"""
    l = Line(const=num("c"), slope=num("m"))
    x = num("x")
    l.set(const=num("c"), slope=num("n"))
    same(l.y(x), num("c") + num("n") * x, "only the slope changed")
    l.set(const=num("d"), slope=num("n"))
    same(l.y(x), num("d") + num("n") * x, "only the constant changed")
    l.set(p1=(num("a"), num("d")), slope=num("n"))
    same(l.y(x), num("d") + num("n") * (x - num("a")), "only the position changed")


def c17_x():
    """C10"""
    a, b, m, v = num("a"), num("b"), num("m"), num("v")
    l = Line(p1=(a, b), slope=m)
    x = l.x(v)
    if m == 0:
        if v == b:
            check(x is not None, "a horizontal line has its value somewhere")
            same(l.y(x), v, "the position found has the value, horizontal")
        else:
            check(x is None, "a horizontal line never has another value")
    else:
        same(l.y(x), v, "the position found has the value")


def c17_x_of_points():
    a, b, c, d = num("a"), num("b"), num("c"), num("d")
    assume(a != c and b != d)
    l = Line(points=[(a, b), (c, d)])
    same(l.x(b), a, "the position of the first value")
    same(l.x(d), c, "the position of the second value")


def c17_area():
    """C26"""
    a, b, m, p, q = num("a"), num("b"), num("m"), num("p"), num("q")
    l = Line(p1=(a, b), slope=m)
    same(l.partial_integration(p, q), (q - p) * (l.y(p) + l.y(q)) / 2, "the area is that of the trapezoid")
    same(l.partial_integration(p, p), 0, "no area over no interval")
    same(l.partial_integration(q, p), 0 - l.partial_integration(p, q), "the area changes sign with its direction")
    r = num("r")
    same(l.partial_integration(p, r), l.partial_integration(p, q) + l.partial_integration(q, r), "areas add up")


def c17_area_zero_bounds():
    """C10"""
    l = Line(const=num("c"), slope=num("m"))
    q = num("q")
    same(l.partial_integration(0, q), q * (num("c") + l.y(q)) / 2, "an area from 0")
    same(l.partial_integration(q, 0), 0 - q * (num("c") + l.y(q)) / 2, "an area to 0")


def c17_min_step():
    """C14: a straight line needs no step but its own"""
    l = Line(const=num("c"), slope=num("m"))
    check(l.x_next(num("x")) is None or l.x_next(num("x")) > num("x"), "a step forward on a line")
    x = num("x")
    lim = num("lim")
    assume(lim > x)
    same(l.x_next(x, limit=lim), lim, "a line steps as far as the limit")
    assume(lim > x)
    same(l.x_previous(lim, limit=x), x, "a line steps back as far as the limit")


def seg(n):
    return [(num("ax" + n), num("ay" + n)), (num("bx" + n), num("by" + n))]


def c17_segment_y():
    s = seg("")
    x = num("x")
    y = trend._line_y(s, x)
    if s[0][0] == s[1][0]:
        if x == s[0][0]:
            check(y is not None, "a vertical line has a value at its position")
        else:
            check(y is None, "a vertical line has no value beside its position")
    else:
        same(y, s[0][1] + (s[1][1] - s[0][1]) * (x - s[0][0]) / (s[1][0] - s[0][0]), "the line through two points")
        same(trend._line_y(s, s[1][0]), s[1][1], "the line passes through its second point")


def c17_segment_x():
    """C10"""
    s = seg("")
    v = num("v")
    x = trend._line_x(s, v)
    if s[0][0] == s[1][0]:
        same(x, s[0][0], "a vertical line has every value at its position")
    elif s[0][1] == s[1][1]:
        if v == s[0][1]:
            check(x is not None, "a horizontal line has its value")
        else:
            check(x is None, "a horizontal line has no other value")
    else:
        same(trend._line_y(s, x), v, "the position found has the value")


def c17_intersection():
    s = seg("1")
    t = seg("2")
    p = trend._line_intersection(s, t)
    cross = (s[1][0] - s[0][0]) * (t[1][1] - t[0][1]) - (s[1][1] - s[0][1]) * (t[1][0] - t[0][0])
    if cross == 0:
        check(p is None, "parallel lines do not intersect")
    else:
        check(p is not None, "other lines intersect")
        for l in [s, t]:
            same((p[0] - l[0][0]) * (l[1][1] - l[0][1]), (p[1] - l[0][1]) * (l[1][0] - l[0][0]), "the intersection lies on both lines")


def c17_intersection_concrete():
    """lines through a common point meet there"""
    a, b, m, n = num("a"), num("b"), num("m"), num("n")
    assume(m != n)
    p = trend._line_intersection([(a, b), (a + 1, b + m)], [(a, b), (a + 2, b + 2 * n)])
    same(p[0], a, "lines through a common point meet at its position")
    same(p[1], b, "lines through a common point meet at its value")
    q = trend._line_intersection([(a, b), (a + 1, b + m)], [(a, b + 1), (a + 1, b + 1 + m)])
    check(q is None, "parallel lines do not meet")


def c17_average():
    p, q = (num("a"), num("b")), (num("c"), num("d"))
    same(trend._average_point_of_2(p, q), ((num("a") + num("c")) / 2, (num("b") + num("d")) / 2), "the middle of two points")


def c17_equation_of_operators():
    """C11: the README example"""
    l1 = Line(const=1, slope=2)
    l2 = Line(const=-1, slope=-2)
    s = l1 + l2
    x = num("x")
    same(s.y(x), 0, "the sum of opposite lines is zero")
    same(l1.y(0), 1, "example value at 0")
    same(l1.y(1), 3, "example value at 1")


def c17_missing_parts():
    """C02"""
    for kw in [0, 1, 2]:
        failed = False
        try:
            if kw == 0:
                Line(slope=num("m"))
            elif kw == 1:
                Line(const=num("c"))
            else:
                Line(p1=(num("a"), num("b")))
        except Exception:
            failed = True
        check(failed, "an incomplete line is refused")


def c17_equal_update():
    """C20: setting a line to what it is tells nobody"""
    c, m = num("c"), num("m")
    l = Line(const=c, slope=m)
    l.add_observer(begin=lambda: log("told"), end=lambda: log("told"))
    l.set(const=c, slope=m)
    x = num("x")
    same(l.y(x), c + m * x, "an equal line")
