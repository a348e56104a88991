"""Derivatives."""
from curvepy import Curve, Line, Constant, Points, Map
from curvepy.sin import Sin
from curvepy.generic import Generic
from curvepy.empty import Empty
from intervalpy import Interval
import math


def both(c, x, d, what):
    same(c.d_y(x), d, what + " (backward)")
    same(c.d_y(x, forward=True), d, what + " (forward)")
    same(c.d_y(x, forward=False), d, what + " (backward, by name)")


def c34_sine():
    """C10: amplitude times frequency"""
    A, p = num("A"), num("p")
    T = pos("T")
    x = num("x")
    s = Sin(A, period=T, phase=p)
    both(s, x, A * (2 * math.pi / T) * math.cos(2 * math.pi / T * x + p), "the slope of a sine")
    s = Sin(A, frequency=1 / T, phase=p)
    both(s, x, A * (2 * math.pi / T) * math.cos(2 * math.pi / T * x + p), "the slope of a sine given by its frequency")


def c34_sine_redefined():
    """C08 C07"""
    s = Sin(num("A"), period=pos("T"))
    x = num("x")
    s.d_y(x)
    s.set(num("B"), period=pos("U"), phase_x=num("q"))
    k = 2 * math.pi / pos("U")
    both(s, x, num("B") * k * math.cos(k * x + num("q") * k), "the slope of a redefined sine")
    same(s.y(x), num("B") * math.sin(k * x + num("q") * k), "the value of a redefined sine")
    same(s.period, pos("U"), "the period given")
    same(s.frequency, 1 / pos("U"), "the frequency is the reciprocal of the period")


def c34_constant():
    """C10"""
    x = num("x")
    both(Constant(num("c")), x, 0, "a constant is level")
    both(Constant.zero(), x, 0, "zero is level")
    c = Constant(None)
    check(c.d_y(x) is None and c.d_y(x, forward=True) is None, "a constant without value has no slope")
    d = ival("d")
    c = Constant(num("c"), domain=d)
    if d.contains(x):
        both(c, x, 0, "a constant is level inside its domain")
    else:
        check(c.d_y(x) is None and c.d_y(x, forward=True) is None, "a constant has no slope outside its domain")


def c34_line():
    """C17"""
    x = num("x")
    m = num("m")
    both(Line(const=num("b"), slope=m), x, m, "the slope of a line")
    l = Line(p1=(0, num("u")), p2=(4, num("v")))
    both(l, x, (num("v") - num("u")) / 4, "the slope through two points")


def c34_of_lines():
    """C11: computed from lines"""
    x = num("x")
    m, n = num("m"), num("n")
    a, b = Line(const=num("a"), slope=m), Line(const=num("b"), slope=n)
    both(a + num("c"), x, m, "the slope of a line raised")
    both(num("c") - a, x, -m, "the slope of a line subtracted")
    both(a + b, x, m + n, "the slope of a sum")
    both(a - b, x, m - n, "the slope of a difference")
    both(a * num("k"), x, m * num("k"), "the slope of a multiple")
    both(-a, x, -m, "the slope of the negative")


def c34_of_lines_offset():
    """C15"""
    x = num("x")
    a = Line(const=num("a"), slope=num("m"))
    both(a.offset(num("d")), x, num("m"), "the slope of a line displaced")
    both(a.offset(2) + num("c"), x, num("m"), "the slope of a line displaced and raised")


def c34_mapped():
    x = num("x")
    a = Line(const=num("a"), slope=num("m"))
    both(a.map(lambda x, y: 3 * y + 1), x, 3 * num("m"), "the slope of a mapped line")


def c34_restricted():
    """C10 C27"""
    a = Line(const=num("a"), slope=num("m"))
    s = a.subset(Interval(0, 10))
    both(s, 5, num("m"), "the slope of a line restricted")
    check(s.d_y(11) is None and s.d_y(-1, forward=True) is None, "no slope outside the interval")
    check(s.d_y(10, forward=True) is None, "no slope forward at the end")
    check(s.d_y(0) is None, "no slope backward at the start")
    same(s.d_y(10), num("m"), "the slope backward at the end")
    same(s.d_y(0, forward=True), num("m"), "the slope forward at the start")


def c34_ends_of_free_steps():
    """C28 C23: a curve that steps to its ends does not step off them"""
    d = ival("d", finite=True)
    assume(d.start < d.end)
    for c in [Constant(num("c"), domain=d), Line(const=num("a"), slope=num("m")).subset(d)]:
        check(c.x_next(d.end) is None, "no step from the end")
        check(c.x_previous(d.start) is None, "no step back from the start")
        check(c.x_next(d.end + 1) is None and c.x_previous(d.start - 1) is None, "no step further away")
        x = num("x")
        assume(d.start < x and x < d.end)
        n = c.x_next(x)
        p = c.x_previous(x)
        check(n is None or (n > x and n <= d.end), "a step forward inside")
        check(p is None or (p < x and p >= d.start), "a step backward inside")


def c34_sample_free_steps():
    """C23"""
    d = Interval.closed(0, 10)
    for c in [Constant(num("c"), domain=d), Line(const=num("a"), slope=num("m")).subset(d)]:
        ps = c.sample_points_from_x(5, 4)
        check([q[0] for q in ps] == [5, 10], "each position once, forward")
        ps = c.sample_points_from_x(5, 4, backward=True)
        check([q[0] for q in ps] == [5, 0], "each position once, backward")


def c34_step():
    """C14: over a step given"""
    f = fn("f", 1, "num")
    c = Generic(f)
    h = 1 + pos("h")
    x = num("x")
    same(c.d_y(x, min_step=h), (f(x) - f(x - h)) / h, "the slope over the step given, backward")
    same(c.d_y(x, forward=True, min_step=h), (f(x + h) - f(x)) / h, "the slope over the step given, forward")


def c34_points():
    """C10: between neighbours"""
    u, v, w = num("u"), num("v"), num("w")
    x0, a, b = num("x0"), 1 + pos("a"), 1 + pos("b")
    p = Points([(x0, u), (x0 + a, v), (x0 + a + b, w)], uniform=False)
    same(p.d_y(x0, forward=True), (v - u) / a, "the slope to the next point")
    same(p.d_y(x0 + a), (v - u) / a, "the slope from the point before")
    same(p.d_y(x0 + a, forward=True), (w - v) / b, "the slope to the next point")
    same(p.d_y(x0 + a + b), (w - v) / b, "the slope from the point before")
    check(p.d_y(x0) is None, "no slope before the first point")
    check(p.d_y(x0 + a + b, forward=True) is None, "no slope after the last point")


def c34_points_missing():
    """C10"""
    p = Points([(0, num("u")), (1, None), (2, num("w"))])
    check(p.d_y(1) is None and p.d_y(1, forward=True) is None, "no slope where the value is missing")
    check(p.d_y(2) is None and p.d_y(0, forward=True) is None, "no slope towards a missing value")


def c34_points_changed():
    """C08"""
    p = Points([(0, num("u")), (1, num("v"))], uniform=False)
    p.d_y(1)
    p.append((3, num("w")))
    p.replace((1, num("z")))
    same(p.d_y(1), num("z") - num("u"), "the slope of the new values")
    same(p.d_y(3), (num("w") - num("z")) / 2, "the slope to a new point")


def c34_derived_points():
    """C11 C15"""
    u, v, w = num("u"), num("v"), num("w")
    p = Points([(0, u), (1, v), (3, w)], uniform=False)
    q = 2 * p + 1
    same(q.d_y(1), 2 * (v - u), "the slope of a multiple of points, backward")
    same(q.d_y(1, forward=True), w - v, "the slope of a multiple of points, forward")
    o = p.offset(num("d"))
    same(o.d_y(1 + num("d")), v - u, "the slope of displaced points")
    same(o.d_y(1 + num("d"), forward=True), (w - v) / 2, "the slope of displaced points, forward")


def c34_extended():
    """C25"""
    u, v, w = num("u"), num("v"), num("w")
    p = Points([(0, u), (1, v), (2, w)])
    c = p.extension("constant", start=True, end=True)
    same(c.d_y(2), w - v, "the slope of the source at the end")
    both(c, 5, 0, "a constant extension is level")
    t = p.extension("tangent", start=True, end=True)
    both(t, 5, w - v, "a tangent extension has the slope of the end")
    both(t, -5, v - u, "a tangent extension has the slope of the start")


def c34_empty():
    """C28"""
    check(Empty().d_y(num("x")) is None and Empty().d_y(num("x"), forward=True) is None, "nothing has no slope")


def c34_kinks_of_endless():
    """towards a side without an end, the slope is the one on that side"""
    m = pos("m")
    for l in [Line(const=0, slope=m), Line(const=0, slope=-m)]:
        for c in [l.abs(), Curve.max(l, -l), l.map(lambda y: y if y > 0 else -y)]:
            close(c.d_y(0, forward=True), m, "the slope after the kink")
            close(c.d_y(0, forward=False), -m, "the slope before the kink")
            close(c.d_y(0), -m, "the slope before the kink by default")
            close(c.d_y(3, forward=False), m, "the slope on the right")
            close(c.d_y(-3, forward=True), -m, "the slope on the left")


def close(a, b, what):
    check(a is not None, what)
    if a is not None:
        check(a - b < 0.001 * pos("m") and b - a < 0.001 * pos("m"), what)
