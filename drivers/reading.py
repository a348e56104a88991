"""C20: reading changes nothing and tells nobody."""
from _driver_common import Src
from curvepy import Curve, Line, Constant, Points, Quotes, Piecewise, Aggregate, Map
from curvepy.accumulator import Accumulator
from curvepy.accumulator_map import AccumulatorMap
from curvepy.extremas import Extremas
from curvepy.integral import Integral
from curvepy.empty import Empty
from curvepy.generic import Generic
from curvepy.sin import Sin
from curvepy.sma import SMA
from curvepy.ema import EMA
from curvepy.trend import Trend
from intervalpy import Interval


def four():
    return Points([(0, num("p0")), (1, num("p1")), (2, num("p2")), (3, num("p3"))])


def uneven():
    return Points([(0, num("p0")), (1, num("p1")), (2.5, num("p2")), (3, num("p3"))], uniform=False)


def told(c):
    def begin(d):
        log("told", "begin")

    def end(d):
        log("told", "end")
    c.add_observer(begin=begin, end=end)


# what may be asked; every question is asked of a curve of its own
QUESTIONS = [
    lambda c: c.y(1),
    lambda c: c.y(2.25),
    lambda c: c.y(3),
    lambda c: c.y(9),
    lambda c: c.y(-1),
    lambda c: c(2),
    lambda c: c.d_y(1),
    lambda c: c.d_y(2, forward=True),
    lambda c: c.x_next(0),
    lambda c: c.x_next(1.5, min_step=0.75),
    lambda c: c.x_next(2, limit=2.5),
    lambda c: c.x_next(3),
    lambda c: c.x_previous(3),
    lambda c: c.x_previous(1.5, min_step=0.75),
    lambda c: c.x_previous(0),
    lambda c: c.domain,
    lambda c: c.first_point(),
    lambda c: c.last_point(),
    lambda c: c.y_start(),
    lambda c: c.y_end(),
    lambda c: c.next_point(1),
    lambda c: c.previous_point(2),
    lambda c: c.sample_points(Interval.closed(0, 2)),
    lambda c: c.sample_points(Interval.closed(0, 3), step=1),
    lambda c: c.sample_points_from_x(1, 2),
    lambda c: c.sample_points_from_x(3, -2),
    lambda c: repr(c),
    lambda c: str(c),
    lambda c: (c.is_updating, c.update_interval, c.min_step),
]


# searches and summaries
SEARCHES = [
    lambda c: c.minimise(2, min_step=0.5, max_iterations=2),
    lambda c: c.maximise(2, min_step=0.5, max_iterations=2),
    lambda c: c.minimise(1, step=1, max_iterations=2),
    lambda c: c.maximise(1, step=1, max_iterations=2),
    lambda c: c.regression(Interval.closed(0, 2), step=1),
    lambda c: c.get_range(Interval.closed(1, 2), step=1),
    lambda c: c.sample_points(Interval.closed(0, 2), min_step=0.75),
    lambda c: c.map(lambda y: y).y(2),
    lambda c: (c + 1).y(1),
    lambda c: c.offset(1).y(2),
]


def answers(c, xs, slopes):
    d = c.domain
    out = [None if d.is_empty else d.start, None if d.is_empty else d.end, c.min_step]
    # the steps and slopes first, while the values have not been asked for
    for x in reversed(xs):
        out.append(c.x_previous(x))
        out.append(c.x_next(x))
    for x in slopes:
        out.append(c.d_y(x))
        out.append(c.d_y(x, forward=True))
    for x in xs:
        out.append(c.y(x))
    return out


def quiet(make, xs=(0, 1, 2.25, 3), skip=(), questions=QUESTIONS, slopes=(3, 1)):
    """make: the sources and the curve"""
    first = None
    for i in range(len(questions)):
        if i in skip:
            continue
        sources, c = make()
        for s in sources:
            told(s)
        told(c)
        if first is None:
            first = answers(c, xs, slopes)
            sources, c = make()
            for s in sources:
                told(s)
            told(c)
        questions[i](c)
        check(len(logged("told")) == 0, "a question tells nobody")
        check(not c.is_updating, "a question opens no update")
        same(answers(c, xs, slopes), first, "a question leaves every later answer as it is")
        questions[i](c)
        same(answers(c, xs, slopes), first, "asked again, it still does")
        check(len(logged("told")) == 0, "the answers tell nobody")


def on(f, src=four):
    def make():
        p = src()
        return [p], f(p)
    return make


def c20_points():
    """C28"""
    quiet(lambda: ([], four()))


def c20_points_uneven():
    quiet(lambda: ([], uneven()))


def known():
    return Points([(0, 5), (1, 2), (2, 4), (3, 3)])


def searched(f, xs=(0, 1, 2.25, 3)):
    quiet(on(f, known), xs=xs, questions=SEARCHES)


def c20_searches():
    """C24: searching changes nothing either"""
    searched(lambda p: p)
    searched(lambda p: p.map(lambda y: 2 * y, skip_none=True))
    searched(lambda p: p * 2 + 1)
    searched(lambda p: p.offset(0.5))
    searched(lambda p: p.subset(Interval.closed(0, 3)))


def c20_searches_of_scans():
    """C24 C08"""
    searched(lambda p: p.ema(0.5))
    searched(lambda p: p.integral())
    searched(lambda p: p.sma(2), xs=(1, 2, 3))
    searched(lambda p: p.trailing_max(2))


def c20_searches_of_composites():
    """C24"""
    searched(lambda p: p.extension("constant", start=True, end=True), xs=(-1, 0, 1, 3, 5))
    searched(lambda p: p.blend(Constant(2), 1, 2))
    searched(lambda p: Piecewise([p, 5], [Interval.closed_open(0, 2), Interval.closed(2, 3)]))
    searched(lambda p: p.differential())


def c20_constant():
    quiet(lambda: ([], Constant(num("c"), domain=Interval.closed(0, 3))))


def c20_line():
    quiet(lambda: ([], Line(const=num("b"), slope=num("m")).subset(Interval.closed(0, 3))))


def c20_map():
    quiet(on(lambda p: p.map(lambda x, y: 2 * y + x, skip_none=True)))


def c20_offset():
    """C15"""
    quiet(on(lambda p: p.offset(0.5)))


def c20_sum():
    """C11"""
    quiet(on(lambda p: 2 * p + 1))


def c20_subset():
    """C27"""
    quiet(on(lambda p: p.subset(Interval.closed(0, 3))), skip=(22, 23))


def c20_piecewise():
    """C27"""
    quiet(on(lambda p: Piecewise([p, 5], [Interval.closed_open(0, 2), Interval.closed(2, 3)])))


def c20_accumulator():
    """C08 C09"""
    quiet(on(lambda p: Accumulator(p, lambda x, y, last: y if last is None else last + x * y)))


def c20_accumulator_uneven():
    """C08 C09"""
    quiet(on(lambda p: Accumulator(p, lambda x, y, last: y if last is None else last + x * y, uniform=False), uneven))


def c20_integral():
    """C08 C26"""
    quiet(on(lambda p: p.integral()))


def c20_sma_degree():
    """C08 C13"""
    quiet(on(lambda p: p.sma(2, is_period=False)), xs=(1, 2, 3))


def c20_sma_period():
    """C08 C13"""
    quiet(on(lambda p: p.sma(1)), xs=(1, 2, 3))


def c20_ema():
    """C08 C13"""
    quiet(on(lambda p: p.ema(2, is_period=False)), xs=(1, 2, 3))


def c20_trailing():
    """C08 C26"""
    quiet(on(lambda p: p.accumulator_map(lambda ps: ps[0] + ps[-1], 2, is_period=False)), xs=(0, 1, 3))


def waves():
    return Points([(0, 1 + pos("a")), (1, -1 - pos("b")), (2, 1 + pos("c")), (3, -1 - pos("d"))])


def c20_extremas():
    """C08 C30"""
    quiet(on(lambda p: Extremas(p, Constant(0)), waves))


def c20_extension_constant():
    """C25"""
    quiet(on(lambda p: p.extension("constant", start=True, end=True)), xs=(-1, 0, 1, 3, 5))


def c20_wide_steps():
    """curves with a step wider than the spacing of their source"""
    quiet(on(lambda p: p.extension("constant", start=True, end=True, min_step=2)), xs=(-1, 0, 3, 5))


def c20_wide_steps_tangent():
    """curves with a step wider than the spacing of their source"""
    quiet(on(lambda p: p.extension("tangent", start=True, end=True, min_step=2)), xs=(-1, 0, 3, 5), slopes=(3,))


def c20_wide_steps_others():
    """curves with a step wider than the spacing of their source"""
    quiet(on(lambda p: Map(p, lambda y: 2 * y, skip_none=True, min_step=2)))
    quiet(on(lambda p: Generic(p, domain=Interval.closed(0, 3), min_step=2)))


def c20_wide_steps_of_scans():
    """scans with a step wider than the spacing of their source"""
    quiet(on(lambda p: EMA(p, 0.5, is_period=False, min_step=2)))
    quiet(on(lambda p: AccumulatorMap(p, sum, 2, is_period=False, min_step=2)))


def c20_extension_tangent():
    """C25"""
    quiet(on(lambda p: p.extension("tangent", start=True, end=True)), xs=(-1, 0, 3, 5), slopes=(2,))


def c20_blend():
    """C27"""
    quiet(on(lambda p: p.blend(Line(const=num("b"), slope=num("m")), 1, 2)))


def c20_differential():
    quiet(on(lambda p: p.differential()))


def rising():
    return Points([(i, num("y0") + i * num("m")) for i in range(4)])


def c20_trend():
    """C08 C29"""
    qs = [lambda t: t.y(2), lambda t: t.y(3), lambda t: t.y(7), lambda t: t.y(0), lambda t: t.upper(3), lambda t: t.lower(2), lambda t: t.lines, lambda t: t.domain,
          lambda t: t.x_next(1), lambda t: t.x_previous(2), lambda t: repr(t), lambda t: t.y(-1)]
    def shapes(t):
        return [[(l.is_upper_trend, list(l.trend_points)) for l in t.y(x)] for x in (2, 3, 4)]
    first = shapes(Trend(rising(), 2, min_points=3, y_tol_abs=0))
    for q in qs:
        p = rising()
        told(p)
        t = Trend(p, 2, min_points=3, y_tol_abs=0)
        told(t)
        q(t)
        check(shapes(t) == first, "a question leaves every later answer as it is")
        check(len(logged("told")) == 0, "a question tells nobody")
        check(not t.is_updating, "a question opens no update")


def c20_trend_lines():
    """C29: the questions to a line"""
    p = rising()
    t = Trend(p, 2, min_points=3, y_tol_abs=0)
    for l in t.y(3):
        tp = list(l.trend_points)
        s = l.search_interval
        l.y(5)
        l.is_valid
        l.is_ready
        l.is_empty
        l.width
        repr(l)
        l.line_extended(width_mult=2)
        check(l.trend_points == tp, "a question leaves the line's points")
        check(l.search_interval == s, "a question leaves where the line is searched for")
    check(len(logged("told")) == 0, "a question tells nobody")


def c20_quotes():
    """C22"""
    def make():
        q = Quotes(1, [(i, [num("o%d" % i), num("h%d" % i), num("l%d" % i), num("c%d" % i)]) for i in range(4)])
        return [q], q.close
    quiet(make, xs=(0, 1.5, 3), skip=(9, 13))


def c20_of_two():
    """two curves over one source do not disturb each other"""
    p = four()
    a = Accumulator(p, lambda x, y, last: y if last is None else last + y)
    b = p.sma(2, is_period=False)
    first = [a.y(3), b.y(3), p.y(3)]
    p2 = four()
    a = Accumulator(p2, lambda x, y, last: y if last is None else last + y)
    b = p2.sma(2, is_period=False)
    b.y(1)
    a.y(2)
    b.y(3)
    a.y(0)
    same([a.y(3), b.y(3), p2.y(3)], first, "the questions to one leave the other")
