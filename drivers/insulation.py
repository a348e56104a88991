"""C19: lists passed in and handed out."""
from _driver_common import Src
from curvepy import Curve, Line, Constant, Points, Quotes, Piecewise, Aggregate, Map
from curvepy.accumulator import Accumulator
from curvepy.accumulator_map import AccumulatorMap
from curvepy.extremas import Extremas
from curvepy.integral import Integral
from curvepy.empty import Empty
from curvepy.generic import Generic
from curvepy.sin import Sin
from curvepy.sma import SMA
from curvepy.ema import EMA
from curvepy.trend import Trend
from intervalpy import Interval


def three():
    return [(0, num("u")), (1, num("v")), (2, num("w"))]


def spoil(ps):
    """whatever can be done to a list"""
    ps[0] = (0, 99)
    ps.append((3, 99))
    ps.insert(1, (0.5, 99))
    del ps[-2]
    ps += [(4, 99)]


def is_three(p, what):
    check(p.domain == Interval.closed(0, 2), what + ": the domain stays")
    same([p.y(0), p.y(1), p.y(2)], [num("u"), num("v"), num("w")], what + ": the values stay")
    check(p.x_next(0) == 1 and p.x_next(1) == 2 and p.x_next(2) is None, what + ": the steps stay")
    check(len(p.sample_points()) == 3, what + ": the samples stay")


def c19_points_given():
    ps = three()
    p = Points(ps)
    spoil(ps)
    is_three(p, "the list given to the constructor")
    ps = three()
    p.set(ps)
    spoil(ps)
    is_three(p, "the list set")
    ps = three()
    p = Points([])
    p.set(ps)
    ps.clear()
    is_three(p, "the list set on an empty curve")


def c19_points_appended():
    ps = three()
    p = Points([])
    p.append_list(ps)
    spoil(ps)
    is_three(p, "the list appended to an empty curve")
    p = Points([(0, num("u"))])
    ps = [(1, num("v")), (2, num("w"))]
    p.append_list(ps)
    spoil(ps)
    is_three(p, "the list appended")
    p = Points(three())
    ps = []
    p.append_list(ps)
    ps.append((3, 99))
    is_three(p, "an empty list appended")


def c19_points_given_unchanged():
    """the curve does not change the list either"""
    ps = three()
    p = Points(ps)
    p.append((3, num("z")))
    p.replace((1, 7))
    p.reset(Interval(2.5, 9))
    p.reset()
    check(ps == three(), "the list given is left as it is")
    qs = [(5, num("q")), (6, num("r"))]
    p.append_list(qs)
    p.append((7, num("s")))
    p.append_list(qs[:0])
    check(qs == [(5, num("q")), (6, num("r"))], "the list appended is left as it is")
    rs = [(8, 1), (9, 2)]
    p.append_list(rs)
    p.replace((8, 3))
    p.append((10, 3))
    check(rs == [(8, 1), (9, 2)], "the list appended is left as it is")


def c19_two_from_one_list():
    ps = three()
    a, b = Points(ps), Points(ps)
    a.append((3, 1))
    a.replace((0, 5))
    is_three(b, "a curve of the same list")
    a.reset()
    is_three(b, "a curve of the same list")
    a.append_list(b.sample_points())
    a.replace((1, 5))
    a.append((3, 5))
    is_three(b, "the curve whose samples were appended")


def c19_points_taken():
    p = Points(three())
    for ps in [p.sample_points(), p.sample_points(Interval.infinite()), p.sample_points(Interval.closed(0, 2)), p.sample_points(Interval.closed(0, 1)),
               p.sample_points(min_step=1), p.sample_points(step=1), p.sample_points(min_step=2), p.sample_points_from_x(0, 3), p.sample_points_from_x(2, -3)]:
        spoil(ps)
        is_three(p, "the samples returned")


def c19_points_taken_one_by_one():
    """C22"""
    for f in [lambda p: p.sample_points(), lambda p: p.sample_points(Interval.closed(0, 1)), lambda p: p.sample_points(Interval(-1, 5))]:
        p = Points(three())
        f(p).clear()
        is_three(p, "the samples returned")
        p.append((3, 4))
        check(len(f(Points(three()))) >= 2, "other curves are not concerned")


def c19_ranges():
    p = Points(three())
    r = p.get_range()
    r.start = 99
    r.end = 100
    d = p.domain
    is_three(p, "the range returned")


def quotes():
    return [(0, [num("o0"), num("h0"), num("l0"), num("c0")]), (60, [num("o1"), num("h1"), num("l1"), num("c1")])]


def is_quotes(q, what):
    check(q.domain == Interval.closed(0, 60), what + ": the domain stays")
    same([q.close.y(0), q.open.y(60), q.high.y(0), q.low.y(60)], [num("c0"), num("o1"), num("h0"), num("l1")], what + ": the values stay")


def c19_quotes():
    """C22"""
    qs = quotes()
    q = Quotes("1 minute", qs)
    spoil(qs)
    is_quotes(q, "the list given to the constructor")
    qs = quotes()
    q.set(qs)
    qs.clear()
    is_quotes(q, "the list set")


def c19_quotes_appended():
    """C22"""
    qs = quotes()
    q = Quotes("1 minute")
    q.append_list(qs)
    qs.clear()
    is_quotes(q, "the list appended first")
    qs = quotes()
    q = Quotes("1 minute", qs[:1])
    ps = qs[1:]
    q.append_list(ps)
    ps.clear()
    is_quotes(q, "the list appended")


def c19_quotes_taken():
    """C22"""
    q = Quotes("1 minute", quotes())
    for ps in [q.sample_points(), q.sample()]:
        ps.clear()
        same(q.close.y(0), num("c0"), "the samples returned")
        check(len(q.sample()) == 2, "the samples returned")


def c19_quotes_taken_part():
    """C22"""
    q = Quotes("1 minute", quotes())
    q.sample_points(Interval.closed(0, 60)).clear()
    check(len(q.sample()) == 2, "the samples returned")
    q.close.sample_points(min_step=60).clear()
    same(q.close.y(0), num("c0"), "the samples returned")


def c19_quotes_leave_the_list():
    """C22"""
    qs = quotes()
    q = Quotes("1 minute", qs)
    q.append((120, [1, 2, 3, 4]))
    q.set([])
    check(qs == quotes(), "the list given is left as it is")
    q.append_list(qs)
    q.append((120, [1, 2, 3, 4]))
    check(qs == quotes(), "the list appended is left as it is")


def operand_list(make, x):
    a, b = Src("a"), Src("b")
    fs = [a, b]
    c = make(fs)
    r = c.y(x)
    d = c.domain
    fs[0] = Constant(99)
    fs.append(Constant(98))
    same(c.y(x), r, "the operands stay those given")
    check(c.domain == d, "the domain stays")
    fs.clear()
    same(c.y(x), r, "the operands stay those given")
    fs = [a, b]
    c = make(fs)
    c.y(x)
    check(len(fs) == 2 and fs[0] is a and fs[1] is b, "the list given is left as it is")


def c19_operands():
    """C11"""
    x = num("x")
    operand_list(lambda fs: Curve.add_many(fs), x)
    operand_list(lambda fs: Curve.subtract_many(fs), x)
    operand_list(lambda fs: Curve.multiply_many(fs), x)
    operand_list(lambda fs: Curve.divide_many(fs), x)


def c19_operands_powers():
    """C11"""
    x = num("x")
    operand_list(lambda fs: Curve.first(fs), x)
    operand_list(lambda fs: Curve.min(fs), x)
    operand_list(lambda fs: Curve.max(fs), x)
    operand_list(lambda fs: Aggregate(fs, tfm=lambda x, ys: ys[1]), x)


def c19_aggregate_values():
    """the list of values handed to a transform, or returned without one"""
    a, b = Src("a"), Src("b")
    x = num("x")
    c = Aggregate([a, b])
    r = c.y(x)
    u, v = a.y(x), b.y(x)
    r[0] = 99
    r.append(98)
    same(c.y(x)[0], u, "the values returned are a list of their own")
    check(len(c.y(x)) == 2, "the values returned are a list of their own")

    def wicked(x, ys):
        ys.append(1)
        ys[0] = 5
        return len(ys)
    c = Aggregate([a, b], tfm=wicked)
    check(c.y(x) == 3 and c.y(x) == 3, "a transform that changes its list changes nothing else")
    same(a.y(x), u, "a transform that changes its list changes nothing else")


def c19_pieces():
    """C27"""
    a, b = Src("a"), Src("b")
    x = num("x")
    fs = [a, b]
    ds = [Interval.closed_open(0, 1), Interval.closed(1, 2)]
    p = Piecewise(fs, ds)
    r = p.y(x)
    fs[0] = Constant(99)
    fs.append(Constant(1))
    ds[0] = Interval.closed_open(0, 99)
    ds.append(Interval(5, 6))
    same(p.y(x), r, "the pieces stay those given")
    check(p.domain == Interval.closed(0, 2), "the domain stays")


def c19_families():
    """C13: the families of averages"""
    p = Points([(i, num("y0") + i) for i in range(4)])
    fs = p.harmonic_smas(1, 2)
    n = len(fs)
    r = fs[0].y(3)
    fs.clear()
    gs = p.harmonic_smas(1, 2)
    check(len(gs) == n, "each family is a list of its own")
    same(gs[0].y(3), r, "each family is a list of its own")


def c19_lines():
    """C29: the lines of a trend"""
    p = Points([(i, num("y0") + i * num("m")) for i in range(4)])
    t = Trend(p, 2, min_points=3, y_tol_abs=0)
    n = len(t.y(3))
    m = len(t.lines)
    k = len(t.upper(3))
    for ls in [t.y(3), t.lines, t.upper(3), t.lower(3), t.upper(None), t.lower(None)]:
        ls.clear()
    check(len(t.y(3)) == n and len(t.lines) == m and len(t.upper(3)) == k, "the lists of lines are lists of their own")


def c19_line_points():
    """C17: the points a line was given, changed afterwards"""
    for make in [lambda a, b: Line(p1=a, p2=b), lambda a, b: Line(points=[a, b]), lambda a, b: Line(p1=a, slope=1)]:
        a, b = [1, 2], [3, 4]
        c = make(a, b)
        x = num("x")
        before = c.y(x)
        a[0], a[1], b[0], b[1] = 7, 8, 19, 10
        same(c.y(x), before, "a line is not moved by its points' list")
    c = Line(const=0, slope=1)
    a, b = [1, 2], [3, 5]
    told = []
    c.add_observer(end=lambda: told.append(1))
    c.set(p1=a, p2=b)
    a[1] = 9
    b[1] = 12
    same(c.y(3), 5, "a line is not moved by the list it was set to")
    c.set(p1=a, p2=b)
    check(len(told) == 2, "a line set to changed points tells of it")
    same(c.y(3), 12, "a line set to changed points")


def c19_extremas():
    """C30"""
    p = Points([(0, 1 + pos("a")), (1, -1 - pos("b")), (2, 1 + pos("c")), (3, -1 - pos("d"))])
    e = Extremas(p, Constant(0))
    r = e.y(1.5)
    ps = e.sample_points()
    n = len(ps)
    ps.clear()
    same(e.y(1.5), r, "the samples returned")
    check(len(e.sample_points()) == n, "the samples returned")


# -------------------------------------------------- nothing shared between curves
def c19_observers_apart():
    """C04: an observer of a curve is not one of another"""
    for f in [lambda: Points([(0, 1), (1, 2)]), lambda: Constant(1), lambda: Line(const=1, slope=2), lambda: Generic(lambda x: x), lambda: Empty(), lambda: Curve.zero(0),
              lambda: Sin(1, period=3)]:
        a, b = f(), f()
        watch_calls(a)
        b.begin_update(Interval(0, 1))
        b.end_update(Interval(0, 1))
        check(len(logged("told")) == 0, "an observer of one curve is not told of another's changes")
        check(not a.is_updating and not b.is_updating, "an update of one curve is none of another")


def watch_calls(c):
    def begin(d):
        log("told", "begin")

    def end(d):
        log("told", "end")
    c.add_observer(begin=begin, end=end)


def c19_constants_apart():
    a, b = Curve.zero(0), Curve.zero(0)
    x = num("x")
    a.value = 5
    same(b.y(x), 0, "zero stays zero")
    same(Curve.zero(0).y(x), 0, "zero stays zero")
    same(Constant.zero().y(x), 0, "zero stays zero")
    a, b = Curve.const(1), Curve.const(1)
    a.value = 5
    same(b.y(x), 1, "another constant stays")
    a, b = Curve.parse(1), Curve.parse(1)
    a.value = 5
    same(b.y(x), 1, "another constant stays")


def c19_lines_apart():
    a, b = Line(const=0, slope=1), Line(const=0, slope=1)
    x = num("x")
    a.set(const=3, slope=num("m"))
    same(b.y(x), x, "another line stays")
    a, b = Sin(1, period=2), Sin(1, period=2)
    r = b.y(x)
    a.set(3, period=4, phase=1)
    same(b.y(x), r, "another wave stays")


def c19_scans_apart():
    """C08: two curves over one source"""
    p = Points([(0, num("u")), (1, num("v")), (2, num("w"))])
    step = lambda x, y, last: y if last is None else last + y
    a, b = Accumulator(p, step), Accumulator(p, lambda x, y, last: y)
    same(a.y(2), num("u") + num("v") + num("w"), "the first accumulation")
    same(b.y(2), num("w"), "the second accumulation")
    same(a.y(1), num("u") + num("v"), "the first accumulation")
    check(len(a.accumulated_points.sample_points()) == 3 and a.accumulated_points is not b.accumulated_points, "each with points of its own")
    c, d = p.integral(), p.integral(const=num("k"))
    same(d.y(1) - c.y(1), num("k"), "two integrals with constants of their own")
    s, t = p.ema(1, init=None) if False else p.sma(2), p.sma(1, is_period=False)
    s.y(2)
    same(t.y(2), num("w"), "the averages apart")


def c19_extremas_apart():
    """C30"""
    p = Points([(0, 1), (1, -1), (2, 1), (3, -1)])
    a, b = Extremas(p, Constant(0)), Extremas(p, Constant(5))
    a.y(2)
    check(len(b.extremas) == 0, "another scan has found nothing yet")
    check(a.extremas is not b.extremas and a.extrema_xs is not b.extrema_xs, "each with lists of its own")


def c19_trends_apart():
    """C29"""
    p = Points([(i, num("y0") + i * num("m")) for i in range(4)])
    a, b = Trend(p, 2, min_points=3, y_tol_abs=0), Trend(p, 2, min_points=3, y_tol_abs=0)
    a.y(3)
    check(len(b.points) == 0 and len(b.lines) == 0, "another trend has found nothing yet")
    check(len(b.y(3)) == len(a.y(3)), "and then finds the same")
