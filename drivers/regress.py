"""C32: least-squares lines."""
from _driver_common import Src, watch
from curvepy import Curve, Constant, Points, Line
from curvepy.trend import _line_fit, _line_fit_f
from intervalpy import Interval
import math


def spread(ps, m, c):
    """the derivatives of the sum of squared errors of y = m x + c, both zero at the least"""
    a = 0
    b = 0
    for x, y in ps:
        e = y - (m * x + c)
        a = a + e * x
        b = b + e
    return a, b


def least_squares(ps, line, what):
    a, b = spread(ps, line.slope, line.y(0))
    same(a, 0, what + ": no slope fits better")
    same(b, 0, what + ": no constant fits better")


def c32_regression():
    ps = [(i, num("y%d" % i)) for i in range(4)]
    least_squares(ps, Points(ps).regression(), "regression")


def c32_regression_irregular():
    ps = [(0, num("y0")), (1, num("y1")), (4, num("y2")), (6, num("y3"))]
    least_squares(ps, Points(ps, uniform=False).regression(), "regression over irregular points")


def c32_regression_two():
    ps = [(num("a"), num("y0")), (num("a") + 1, num("y1"))]
    l = Points(ps).regression()
    for x, y in ps:
        same(l.y(x), y, "two points are fitted exactly")


def c32_regression_unknown_positions():
    a = num("a")
    h = num("h")
    assume(h > 1)
    ps = [(a, num("y0")), (a + h, num("y1")), (a + 3 * h, num("y2"))]
    least_squares(ps, Points(ps, uniform=False).regression(), "regression over unknown positions")


def c32_regression_domain():
    """of the samples of the interval, C14"""
    ps = [(i, num("y%d" % i)) for i in range(5)]
    p = Points(ps)
    least_squares(ps[1:4], p.regression(domain=Interval.closed(1, 3)), "regression over an interval")
    least_squares(ps[1:4], p.regression(domain=Interval.open(0.5, 4)), "regression over an open interval")
    least_squares(ps[2:5], p.regression(Interval.gte(2)), "regression over an interval")


def c32_regression_steps():
    """C14"""
    s = Src("a", Interval.closed(0, 6))
    l = s.regression(step=2)
    ps = []
    for x in [0, 2, 4, 6]:
        y = s.y(x)
        if y is None:
            check(l is None, "no regression over a missing value")
            return
        ps.append((x, y))
    least_squares(ps, l, "regression over steps")


class Even(Curve):
    """free steps"""

    def get_domain(self):
        return Interval.closed(0, 3)

    def y(self, x):
        return app("even", x)


def c32_regression_min_step():
    """C14"""
    s = Even()
    l = s.regression(min_step=1)
    least_squares([(i, s.y(i)) for i in range(4)], l, "regression over samples a step apart")
    l = s.regression(domain=Interval.closed(0, 2), min_step=1)
    least_squares([(i, s.y(i)) for i in range(3)], l, "regression over samples a step apart")


def c32_regression_missing():
    """C10"""
    check(Points([]).regression() is None, "no regression of nothing")
    check(Points([(0, 1)]).regression() is None, "no regression of one point")
    check(Points([(0, 1), (1, None), (2, 3)]).regression() is None, "no regression over a missing value")
    check(Points([(0, None), (1, 2)]).regression() is None, "no regression over a missing value")
    check(Points([(0, 1), (1, 2), (2, 3)]).regression(domain=Interval.closed(5, 6)) is None, "no regression outside the domain")
    l = Points([(0, 0), (1, 0), (2, 0)]).regression()
    same(l.slope, 0, "zeros are values")
    same(l.y(1), 0, "zeros are values")


def fit_is(ps, what):
    line = _line_fit(ps)
    (x0, y0), (x1, y1) = line
    same(x0, ps[0][0], what + ": from the first point")
    same(x1, ps[-1][0], what + ": to the last point")
    m = (y1 - y0) / (x1 - x0)
    a, b = spread(ps, m, y0 - m * x0)
    same(a, 0, what + ": no slope fits better")
    same(b, 0, what + ": no constant fits better")


def c32_line_fit():
    """C29"""
    fit_is([(0, num("y0")), (1, num("y1")), (3, num("y2"))], "trend line")
    fit_is([(0, num("y0")), (1, num("y1")), (3, num("y2")), (4, num("y3"))], "trend line")


def c32_line_fit_unknown_positions():
    """C29"""
    a = num("a")
    h = num("h")
    assume(h > 1)
    fit_is([(a, num("y0")), (a + h, num("y1")), (a + 3 * h, num("y2"))], "trend line")


def c32_line_fit_two():
    """C29"""
    p = (num("a"), num("y0"))
    q = (num("a") + 2, num("y1"))
    l = _line_fit([p, q])
    same(l[0][0], p[0], "two points are the line")
    same(l[0][1], p[1], "two points are the line")
    same(l[1][0], q[0], "two points are the line")
    same(l[1][1], q[1], "two points are the line")
    check(_line_fit([p]) is None, "no line through one point")
    check(_line_fit([]) is None, "no line through nothing")


def c32_line_fit_function():
    ps = [(0, num("y0")), (1, num("y1")), (3, num("y2"))]
    f = _line_fit_f(ps)
    m = f(1) - f(0)
    a, b = spread(ps, m, f(0))
    same(a, 0, "no slope fits better")
    same(b, 0, "no constant fits better")
