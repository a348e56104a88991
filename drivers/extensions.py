"""C25: extended curves."""
from _driver_common import Src, bracketed, watch
from curvepy import Curve, Constant, Points, Line
from curvepy.extension import ConstantExtension, TangentExtension, SinExtension, Extension
from intervalpy import Interval
import math


def fails(f, what):
    failed = False
    try:
        f()
    except Exception:
        failed = True
    check(failed, what)


def three():
    return [(num("a"), num("y0")), (num("a") + 1, num("y1")), (num("a") + 3, num("y2"))]


def continued(c, p, x, start, end, before, after, what):
    """the value of an extended curve at any position"""
    d = p.domain
    if d.contains(x):
        same(c.y(x), p.y(x), what + ": the curve itself where it is defined")
        check(not c.is_in_extension(x), what + ": the curve itself is not an extension")
    elif x < d.start:
        if start:
            same(c.y(x), before(x), what + ": continued before the start")
            check(c.is_in_extension(x), what + ": the positions before are in the extension")
        else:
            check(c.y(x) is None, what + ": not continued at an end not chosen")
            check(not c.is_in_extension(x), what + ": not continued at an end not chosen")
    else:
        if end:
            same(c.y(x), after(x), what + ": continued after the end")
            check(c.is_in_extension(x), what + ": the positions after are in the extension")
        else:
            check(c.y(x) is None, what + ": not continued at an end not chosen")
            check(not c.is_in_extension(x), what + ": not continued at an end not chosen")
    check(c.domain.contains(x) == (d.contains(x) or (start and x < d.start) or (end and x > d.end)), what + ": defined on the curve and the chosen sides of it")


def sides(start, end):
    x = num("x")
    ps = three()
    p = Points(ps, uniform=False)
    c = p.extension("constant", start=start, end=end)
    continued(c, p, x, start, end, lambda x: num("y0"), lambda x: num("y2"), "constant extension")
    c = p.extension("tangent", start=start, end=end)
    a = num("a")
    continued(c, p, x, start, end, lambda x: num("y0") + (num("y1") - num("y0")) * (x - a), lambda x: num("y2") + (num("y2") - num("y1")) / 2 * (x - a - 3), "tangent extension")


def c25_both():
    sides(True, True)


def c25_start():
    sides(True, False)


def c25_end():
    sides(False, True)


def c25_neither():
    sides(False, False)


def c25_defaults():
    """C14"""
    x = num("x")
    p = Points(three(), uniform=False)
    for kind in ["constant", "tangent"]:
        c = p.extension(kind)
        if x < p.domain.start:
            check(c.y(x) is None, "the end only, unless told otherwise")
        if x > p.domain.end:
            check(c.y(x) is not None, "the end only, unless told otherwise")
    fails(lambda: p.extension("no such extension"), "an unknown extension is refused")
    c = ConstantExtension(p)
    check(c.domain.is_infinite, "both ends of an extension built directly")


def c25_options():
    """C14"""
    p = Points(three(), uniform=False)
    c = p.extension("constant", start=True, end=False, raise_on_empty=True, min_step=num("m"), uniform=False)
    check(c.start and not c.end and c.raise_on_empty and not c.uniform, "options reach the extension")
    same(c.min_step, num("m"), "options reach the extension")
    c = p.extension("tangent", start=False, end=True, raise_on_empty=True, regression_degree=3)
    check(c.end and not c.start and c.raise_on_empty and c.regression_degree == 3 and c.regression_period is None, "options reach the extension")
    c = p.extension("tangent", start=False, end=True, regression_period=4)
    check(c.end and not c.start and not c.raise_on_empty and c.regression_degree is None and c.regression_period == 4, "options reach the extension")
    c = p.extension("sin", start=True, end=True, period=5)
    check(c.end and c.start and c.period == 5, "options reach the extension")
    check(isinstance(p.extension("sin", period=5), SinExtension) and isinstance(p.extension("tangent"), TangentExtension) and isinstance(p.extension("constant"), ConstantExtension), "the extension asked for")


# ------------------------------------------------------------- changes of the source
def follows(kind, change, what, start=True, end=True, **options):
    """asked before, during and after: as if built afterwards"""
    x = num("x")
    p = Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])
    c = p.extension(kind, start=start, end=end, **options)
    c.y(x)
    c.domain
    change(p)
    f = p.extension(kind, start=start, end=end, **options)
    same(c.y(x), f.y(x), what + ": the values follow a change")
    check(c.domain == f.domain, what + ": the domain follows a change")
    check(c.is_in_extension(x) == f.is_in_extension(x), what + ": the extension follows a change")


def c25_follows_append():
    """C07"""
    for kind in ["constant", "tangent"]:
        follows(kind, lambda p: p.append((3, num("v"))), kind + " extension")


def c25_follows_append_one_end():
    """C07"""
    for kind in ["constant", "tangent"]:
        follows(kind, lambda p: p.append((3, num("v"))), kind + " extension", start=False)
        follows(kind, lambda p: p.append((3, num("v"))), kind + " extension", end=False)


def c25_follows_reset():
    """C07"""
    for kind in ["constant", "tangent"]:
        follows(kind, lambda p: p.reset(Interval.gte(2)), kind + " extension")
        follows(kind, lambda p: p.reset(Interval.lt(1)), kind + " extension", end=False)


def c25_follows_emptied():
    """C07"""
    for kind in ["constant", "tangent"]:
        follows(kind, lambda p: p.reset(Interval.infinite()), kind + " extension")
        follows(kind, lambda p: p.reset(Interval.infinite()), kind + " extension", start=False)


def c25_follows_replace():
    for kind in ["constant", "tangent"]:
        follows(kind, lambda p: p.replace((2, num("v"))), kind + " extension")
        follows(kind, lambda p: p.replace((0, num("v"))), kind + " extension")


def c25_follows_set():
    """C07"""
    follows("constant", lambda p: p.set([(5, num("v")), (6, num("w"))]), "constant extension")


def c25_follows_set_tangent():
    """C07"""
    follows("tangent", lambda p: p.set([(5, num("v")), (6, num("w"))]), "tangent extension")


def c25_from_empty():
    """C07"""
    x = num("x")
    for kind in ["constant", "tangent"]:
        p = Points([])
        c = p.extension(kind, start=True, end=True)
        check(c.y(x) is None and c.domain.is_empty, kind + " extension: nothing extends nothing")
        check(not c.is_in_extension(x), kind + " extension: nothing extends nothing")
        p.append_list([(0, num("y0")), (1, num("y1"))])
        f = p.extension(kind, start=True, end=True)
        same(c.y(x), f.y(x), kind + " extension: the values follow a change")
        check(c.domain.is_infinite, kind + " extension: the domain follows a change")


def c25_single():
    x = num("x")
    p = Points([(num("a"), num("y0"))])
    c = p.extension("constant", start=True, end=True)
    same(c.y(x), num("y0"), "a single point is continued by its value")
    c = p.extension("tangent", start=True, end=True)
    if x == num("a"):
        same(c.y(x), num("y0"), "a single point has no tangent")
    else:
        check(c.y(x) is None, "a single point has no tangent")
    check(c.domain == p.domain, "a single point has no tangent")


# ------------------------------------------------------------- an end that cannot be extended
def c25_raise():
    x = num("x")
    for kind in ["constant", "tangent"]:
        for start, end in [(True, True), (False, True), (True, False)]:
            c = Points([]).extension(kind, start=start, end=end, raise_on_empty=True)
            fails(lambda: c.domain, kind + " extension: raises when an end cannot be extended")
            fails(lambda: c.domain, kind + " extension: raises as often as asked")
            c = Points([]).extension(kind, start=start, end=end, raise_on_empty=True)
            fails(lambda: c.y(x), kind + " extension: raises when an end cannot be extended")
            c = Points([]).extension(kind, start=start, end=end)
            check(c.y(x) is None, kind + " extension: has no value when an end cannot be extended")
            c = Points([(0, num("y0")), (1, num("y1"))]).extension(kind, start=start, end=end, raise_on_empty=True)
            c.domain
            c.y(x)
    c = Points([(0, num("y0"))]).extension("tangent", start=False, end=True, raise_on_empty=True)
    fails(lambda: c.domain, "tangent extension: raises when there is no tangent")


def c25_missing_edge():
    """C10"""
    x = num("x")
    for kind in ["constant", "tangent"]:
        c = Points([(0, None), (1, num("y1")), (2, num("y2"))]).extension(kind, start=True, end=True)
        if x < 0:
            check(c.y(x) is None, kind + " extension: a missing value is not continued")
        if x > 2:
            check(c.y(x) is not None, kind + " extension: the other end is continued")
        check(not c.domain.is_negative_infinite and c.domain.is_positive_infinite, kind + " extension: the other end is continued")
        c = Points([(0, num("y0")), (1, num("y1")), (2, None)]).extension(kind, start=True, end=True)
        if x < 0:
            check(c.y(x) is not None, kind + " extension: the other end is continued")
        if x > 2:
            check(c.y(x) is None, kind + " extension: a missing value is not continued")
        check(c.domain.is_negative_infinite and not c.domain.is_positive_infinite, kind + " extension: the other end is continued")
    c = Points([(0, 0), (1, 0)]).extension("constant", start=True, end=True)
    same(c.y(x), 0, "zero is a value")
    c = Points([(0, 0), (1, 0)]).extension("tangent", start=True, end=True)
    same(c.y(x), 0, "zero is a value")


def c25_infinite():
    """an end already infinite"""
    x = num("x")
    l = Line(const=num("c"), slope=num("m"))
    for kind in ["constant", "tangent"]:
        c = l.extension(kind, start=True, end=True)
        same(c.y(x), l.y(x), kind + " extension: an infinite curve is itself")
        s = l.subset(Interval.gte(0))
        c = s.extension(kind, start=True, end=True, min_step=1)
        check(c.domain.is_infinite, kind + " extension: the finite end is extended")
        if x >= 0:
            same(c.y(x), l.y(x), kind + " extension: the curve itself where it is defined")
        elif kind == "constant":
            same(c.y(x), num("c"), kind + " extension: continued before the start")
        else:
            same(c.y(x), l.y(x), kind + " extension: continued before the start")


# ------------------------------------------------------------- tangents of regressions
def fit_at(ps, x):
    """the least-squares line of the points at a position"""
    n = len(ps)
    sx = 0
    sy = 0
    sxx = 0
    sxy = 0
    for p in ps:
        sx = sx + p[0]
        sy = sy + p[1]
        sxx = sxx + p[0] * p[0]
        sxy = sxy + p[0] * p[1]
    m = (n * sxy - sx * sy) / (n * sxx - sx * sx)
    return (sy - m * sx) / n + m * x


def five():
    return [(i, num("y%d" % i)) for i in range(5)]


def regressed(n, what, **options):
    x = num("x")
    ps = five()
    p = Points(ps)
    c = p.extension("tangent", start=True, end=True, **options)
    if x < 0:
        same(c.y(x), fit_at(ps[:n], x), what + ": continued by the line through the first points")
    elif x > 4:
        same(c.y(x), fit_at(ps[5 - n:], x), what + ": continued by the line through the last points")
    else:
        same(c.y(x), p.y(x), what + ": the curve itself where it is defined")


def c25_degree():
    """C14, C32"""
    regressed(3, "a tangent over two steps", regression_degree=2)


def c25_degree_one():
    """C14"""
    regressed(2, "a tangent over one step", regression_degree=1)


def c25_period():
    """C14, C32"""
    regressed(3, "a tangent over a period", regression_period=2)
    regressed(3, "a tangent over a period between positions", regression_period=2.5)


def c25_degree_beyond():
    regressed(5, "a tangent over more steps than there are", regression_degree=9)
    regressed(5, "a tangent over a longer period than there is", regression_period=9)


def c25_bad_options():
    p = Points(five())
    fails(lambda: p.extension("tangent", regression_degree=0), "no tangent over no points")
    fails(lambda: p.extension("tangent", regression_period=0), "no tangent over no time")
    fails(lambda: p.extension("tangent", regression_degree=2, regression_period=2), "one or the other")
    fails(lambda: p.extension("sin", period=0), "no wave without a period")


class Open(Curve):
    """a line with an open end"""

    def __init__(self, d):
        super().__init__(min_step=0.5)
        self.d = d

    def get_domain(self):
        return self.d

    def y(self, x):
        if not self.d.contains(x):
            return None
        return num("c") + num("m") * x


def c25_open_ends():
    x = num("x")
    o = Open(Interval.open(0, 10))
    c = o.extension("tangent", start=True, end=True, min_step=0.5)
    same(c.y(x), num("c") + num("m") * x, "a line with open ends is continued by its tangent")
    c = Open(Interval.closed(0, 10)).extension("tangent", start=True, end=True, min_step=0.5)
    same(c.y(x), num("c") + num("m") * x, "a line is continued by its tangent")
    for d in [Interval.closed_open(0, 10), Interval.open_closed(0, 10)]:
        c = Open(d).extension("tangent", start=True, end=True, min_step=0.5)
        same(c.y(x), num("c") + num("m") * x, "a line with one open end is continued by its tangent")


def c25_open_end_constant():
    x = num("x")
    v = num("c") + num("m") * x
    for d in [Interval.closed_open(0, 10), Interval.open_closed(0, 10)]:
        c = Open(d).extension("constant", start=d.end_open, end=d.start_open)
        if d.contains(x):
            same(c.y(x), v, "inside, the source")
        elif x < 0 and d.end_open:
            same(c.y(x), num("c"), "the first value goes on")
        elif x > 10 and d.start_open:
            same(c.y(x), num("c") + num("m") * 10, "the last value goes on")
        else:
            check(c.y(x) is None, "beyond an end not chosen, nothing")


# ------------------------------------------------------------- steps
def steps(start, end):
    """C28"""
    p = Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])
    x = num("x")
    m = pos("m")
    assume(m <= 1 and m > 0.01)
    c = p.extension("constant", start=start, end=end)
    if not c.domain.contains(x):
        return
    n = c.x_next(x, min_step=m)
    if n is None:
        check(not end, "an extended end never ends")
    else:
        check(n >= x + m, "a step is at least as long as asked for")
        check(c.domain.contains(n), "a step stays within the extended curve")
    n = c.x_previous(x, min_step=m)
    if n is None:
        check(not start, "an extended start never ends")
    else:
        check(n <= x - m, "a step is at least as long as asked for")
        check(c.domain.contains(n), "a step stays within the extended curve")


def c25_steps_both():
    """C28"""
    steps(True, True)


def c25_steps_end():
    """C28"""
    steps(False, True)


def c25_steps_start():
    """C28"""
    steps(True, False)


def c25_steps_wide():
    """C28: steps longer than the spacing of the source"""
    p = Points([(i, num("y%d" % i)) for i in range(5)])
    for kind in ["constant", "tangent"]:
        c = p.extension(kind, start=True, end=True)
        for m in [0.5, 1, 1.5, 2, 3, 4]:
            for x in [4, 5, 9.5]:
                check(c.x_next(x, min_step=m) >= x + m, "a step from the end on is at least as long as asked for")
                check(c.x_previous(4 - x, min_step=m) <= 4 - x - m, "a step from the start back is at least as long as asked for")
            for x in [0, 0.5, 1, 2.75, 3.5]:
                check(c.x_next(x, min_step=m) >= x + m, "a step over the end is at least as long as asked for")
                check(c.x_previous(4 - x, min_step=m) <= 4 - x - m, "a step over the start is at least as long as asked for")


def c25_steps_limit():
    """C28"""
    p = Points([(0, num("y0")), (2, num("y1")), (4, num("y2"))])
    c = p.extension("constant", start=True, end=True)
    l = num("l")
    assume(l > 4)
    n = c.x_next(4, limit=l)
    same(n, l if l < 6 else 6, "a limit lying ahead is stopped at")
    n = c.x_previous(0, limit=4 - l)
    same(n, 4 - l if l < 6 else -2, "a limit lying behind is stopped at")


def c25_steps_inside():
    """C28"""
    p = Points(three(), uniform=False)
    a = num("a")
    c = p.extension("constant", start=True, end=True)
    same(c.x_next(a), a + 1, "the steps of the curve itself")
    same(c.x_next(a + 1), a + 3, "the steps of the curve itself")
    same(c.x_previous(a + 3), a + 1, "the steps of the curve itself")
    same(c.x_next(a + 3), a + 5, "the last step again and again")
    same(c.x_next(a + 5), a + 7, "the last step again and again")
    same(c.x_previous(a), a - 1, "the first step again and again")
    same(c.x_previous(a - 1), a - 2, "the first step again and again")
    same(c.x_next(a - 2), a, "into the curve itself")
    same(c.x_previous(a + 9), a + 3, "into the curve itself")


def c25_intervals():
    p = Points([(0, num("y0")), (2, num("y2"))])
    c = p.extension("constant", start=True, end=True)
    check(c.is_in_extension(Interval.open(2, 3)) and c.is_in_extension(Interval(-4, -1)) and c.is_in_extension((5, 6)), "an interval beyond an end is in the extension")
    check(not c.is_in_extension(Interval.closed(2, 3)) and not c.is_in_extension(Interval(-4, 1)) and not c.is_in_extension(Interval(-1, 3)), "an interval reaching into the curve is not")
    c = p.extension("constant", start=False, end=True)
    check(c.is_in_extension((5, 6)) and not c.is_in_extension((-5, -3)), "an interval beyond an end not chosen is not")


# ------------------------------------------------------------- waves
def c25_sine():
    """C13: through a point with a slope"""
    from curvepy.sin import Sin
    T = pos("T")
    c = Points([(0, 1), (1, 2)]).extension("sin", end=True, period=T)
    f = Sin(amplitude=0, period=T)
    x = num("x")
    c.update_extension_func(f, x, num("y"), num("dy"))
    same(f.y(x), num("y"), "the sine goes through the edge")
    same(f.d_y(x), num("dy"), "the sine has the slope of the edge")
    same(f.period, T, "the sine has the period given")


def c25_sine_ends():
    """C14: at its edges a curve is continued by the sine"""
    T = pos("T")
    y = num("y")
    d = num("d")
    p = Points([(-2, num("y0")), (-1, y - d), (0, y)])
    c = p.extension("sin", end=True, period=T)
    check(c.domain == Interval.gte(-2), "extended by a sine")
    same(c.end_func.y(0), y, "the sine goes through the edge")
    same(c.end_func.d_y(0), d, "the sine has the slope of the edge")
    p = Points([(0, y), (1, y + d)])
    c = p.extension("sin", start=True, end=False, period=T)
    check(c.domain == Interval.lte(1), "extended by a sine")
    same(c.start_func.y(0), y, "the sine goes through the edge")
    same(c.start_func.d_y(0), d, "the sine has the slope of the edge")


def c25_sine_degree():
    """C14: the line through the last points, from which the middle one differs"""
    T = pos("T")
    y = num("y")
    d = num("d")
    e = num("e")
    ps = [(-3, num("y0")), (-2, y - 2 * d + e), (-1, y - d - 2 * e), (0, y + e)]
    c = Points(ps).extension("sin", end=True, period=T, regression_degree=2)
    c.domain
    same(c.end_func.y(0), y, "the sine goes through the end of the regression")
    same(c.end_func.d_y(0), d, "the sine has the slope of the regression")


def extension_bracketed(n, derive, change, x, what):
    p = Points([(i, num("y%d" % i)) for i in range(n)])
    bracketed(derive(p), x, lambda: change(p), what)


def c25_regression_degree_announced():
    """C03 C01: a change of an inner point moves a line fitted through it"""
    extension_bracketed(4, lambda p: p.extension("tangent", regression_degree=2), lambda p: p.replace((2, num("v"))), num("x"), "extension along a regression")


def c25_regression_degree_announced_start():
    """C03 C01: a change of an inner point moves a line fitted through it"""
    extension_bracketed(4, lambda p: p.extension("tangent", start=True, end=False, regression_degree=2), lambda p: p.replace((1, num("v"))), num("x"), "extension along a regression")


def c25_regression_first_announced():
    """C03 C01: a change of the furthest point moves a line fitted through it"""
    extension_bracketed(4, lambda p: p.extension("tangent", regression_degree=2), lambda p: p.replace((1, num("v"))), 5, "extension along a regression")


def c25_regression_period_announced():
    """C03 C01: a change of an inner point moves a line fitted through it"""
    extension_bracketed(4, lambda p: p.extension("tangent", regression_period=2), lambda p: p.replace((1, num("v"))), 5, "extension along a regression")


def c25_tangent_announced():
    """C03 C01"""
    extension_bracketed(4, lambda p: p.extension("tangent", start=True), lambda p: p.replace((2, num("v"))), num("x"), "extension along tangents")


def c25_constant_announced():
    """C03 C01"""
    extension_bracketed(3, lambda p: p.extension("constant", start=True), lambda p: p.replace((2, num("v"))), num("x"), "extension by constants")
    extension_bracketed(3, lambda p: p.extension("constant", start=True), lambda p: p.replace((0, num("v"))), num("x"), "extension by constants")
