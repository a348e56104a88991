"""C14: an option given to a convenience method does what it does for the curve constructed directly."""
from _driver_common import Src, watch
from curvepy import (Curve, Points, Aggregate, Piecewise, EMA, SMA, Extremas, Quotes, Accumulator, AccumulatorMap, Generic, Integral, Map, Offset)
from curvepy.extension import ConstantExtension, TangentExtension, SinExtension
from intervalpy import Interval
import math


def data():
    return [(0, num("y0")), (1, num("y1")), (3, num("y2")), (4, num("y3")), (7, num("y4"))]


def alike(a, b, what, xs=(0, 0.5, 1, 2, 3, 4, 5.5, 7, 8)):
    check(a.min_step == b.min_step, what + ": the step")
    check(a.domain == b.domain, what + ": the domain")
    for x in xs:
        same(a.y(x), b.y(x), what + ": the values")
    for x in xs:
        same(a.x_next(x), b.x_next(x), what + ": the next positions")
        same(a.x_previous(x), b.x_previous(x), what + ": the previous positions")


def both(convenient, direct, what, options):
    for o in options:
        p = Points(data(), uniform=False)
        q = Points(data(), uniform=False)
        alike(convenient(p, o), direct(q, o), what)


STEPS = [{}, {"min_step": 1.5}, {"min_step": 2.5}]


def c14_sma():
    both(lambda p, o: p.sma(2, uniform=False, **o), lambda p, o: SMA(p, 2, is_period=False, uniform=False, **o), "a simple average", STEPS)


def c14_sma_period():
    both(lambda p, o: p.sma(3, is_period=True, uniform=False, **o), lambda p, o: SMA(p, 3, is_period=True, uniform=False, **o), "a simple average of a period", STEPS)


def c14_ema():
    both(lambda p, o: p.ema(0.5, uniform=False, **o), lambda p, o: EMA(p, 0.5, is_period=False, uniform=False, **o), "an average",
         STEPS + [{"init": 3}, {"init": 0}])


def c14_ema_period():
    both(lambda p, o: p.ema(8, is_period=True, uniform=False, **o), lambda p, o: EMA(p, 8, is_period=True, uniform=False, **o), "an average of a period",
         STEPS + [{"init": 3}])


def c14_smma():
    both(lambda p, o: p.smma(2, uniform=False, **o),
         lambda p, o: EMA(p, 0.5, is_period=False, init=SMA(p, 2, is_period=False, uniform=False, **o), uniform=False, **o), "a smoothed average", STEPS)


def c14_integral():
    both(lambda p, o: p.integral(uniform=False, **o), lambda p, o: Integral(p, uniform=False, **o), "an integral",
         [{}, {"const": 3}, {"interpolation": -1}, {"interpolation": 1, "const": -2}, {"interpolation": 0}])


def trailing(lowest):
    def convenient(p, o):
        if lowest:
            return p.trailing_min(uniform=False, **o)
        return p.trailing_max(uniform=False, **o)

    def direct(p, o):
        f = (lambda ys: min(ys)) if lowest else (lambda ys: max(ys))
        o = dict(o)
        if "is_period" not in o:
            o["is_period"] = False
        return AccumulatorMap(p, f, uniform=False, **o)
    both(convenient, direct, "trailing extremes",
         [{"degree": 2}, {"degree": 2, "interpolation": -1, "min_step": 1.5}, {"degree": 2.5, "is_period": True, "min_step": 1.5, "interpolation": -1}])


def c14_trailing_min():
    trailing(True)


def c14_trailing_max():
    trailing(False)


def c14_accumulator_map():
    def f(x, ys):
        return x * ys[0] - ys[-1]
    both(lambda p, o: p.accumulator_map(f, uniform=False, **o),
         lambda p, o: AccumulatorMap(p, f, uniform=False, **dict({"is_period": False}, **o)), "a trailing map",
         [{"degree": 2}, {"degree": 2, "interpolation": -1}, {"degree": 2, "min_step": 1.5}, {"degree": 2.5, "is_period": True}])


def c14_map():
    def f(y):
        return 5 if y is None else 2 * y
    for o in [{}, {"skip_none": True}, {"min_step": 1.5}, {"name": "twice"}]:
        ys = [(0, 1), (1, None), (3, num("y2")), (7, num("y4"))]
        a = Points(ys, uniform=False).map(f, **o)
        b = Map(Points(ys, uniform=False), f, **o)
        alike(a, b, "a map")
        check(a.name == b.name and a.skip_none == b.skip_none, "a map: its name and what it skips")


def c14_offset():
    both(lambda p, o: p.offset(2, **o), lambda p, o: Offset(p, 2, **o), "an offset", [{}, {"duration": 1}])


def c14_family():
    both(lambda p, o: p.harmonic_smas(1, 2, stride=0, uniform=False, **o)[1], lambda p, o: SMA(p, 2, is_period=False, uniform=False, **o), "a family of averages", STEPS)
    both(lambda p, o: p.harmonic_smas(1, 2, stride=0, is_period=True, uniform=False, **o)[1], lambda p, o: SMA(p, 2, is_period=True, uniform=False, **o),
         "a family of averages of a period", [{}])


def c14_centered_family():
    both(lambda p, o: p.centered_macs(1, 2, stride=0, uniform=False, **o)[0], lambda p, o: SMA(p, 2, is_period=False, uniform=False, **o), "averages of a centre", STEPS)
    both(lambda p, o: p.centered_macs(1, 2, stride=0, is_period=True, uniform=False, **o)[0], lambda p, o: SMA(p, 2, is_period=True, uniform=False, **o),
         "averages of a centre, of a period", [{}])


def c14_rsi():
    def direct(p, o):
        d = p.differential()
        u = EMA(Curve.max([d, 0]), 0.5, is_period=False, uniform=False, **o)
        v = EMA(Curve.max([-d, 0]), 0.5, is_period=False, uniform=False, **o)
        return 100 - 100 / (1 + u / v)
    for o in STEPS:
        ps = [(0, 1), (1, 3), (3, 2), (4, 6), (7, 5)]
        a = Points(ps, uniform=False).rsi(2, uniform=False, **o)
        b = direct(Points(ps, uniform=False), o)
        for x in [0, 1, 3, 4, 7]:
            same(a.y(x), b.y(x), "the strength index: the values")


def extended(kind, make, options):
    for o in options:
        for e in [{}, {"start": True}, {"start": True, "end": False}, {"start": False, "end": True}]:
            a = Points(data(), uniform=False).extension(kind, **dict(o, **e))
            b = make(Points(data(), uniform=False), **dict(o, **dict({"start": False, "end": True}, **e)))
            alike(a, b, "an extension", (-3, -1, 0, 2, 7, 8, 10))
            check(a.raise_on_empty == b.raise_on_empty and a.start == b.start and a.end == b.end, "an extension: its settings")


def c14_extension_constant():
    extended("constant", ConstantExtension, [{}, {"min_step": 1.5}, {"raise_on_empty": True}, {"uniform": False}])


def c14_extension_tangent():
    extended("tangent", TangentExtension, [{}, {"min_step": 1.5}, {"regression_degree": 1}, {"regression_period": 1}])


def c14_regression():
    for o in [{}, {"step": 1}, {"min_step": 2}]:
        p = Points(data(), uniform=False)
        r = p.regression(Interval.closed(0, 3), **o)
        ps = Points(data(), uniform=False).sample_points(Interval.closed(0, 3), **dict({"min_step": 1e-5}, **o))
        n = len(ps)
        if n == 2:
            same(r.slope, (ps[1][1] - ps[0][1]) / (ps[1][0] - ps[0][0]), "the regression of the samples asked for")


def c14_quotes_samples():
    """C22 C23"""
    q = Quotes(1, quote_points=[(i, [num("o%d" % i), num("h%d" % i), num("l%d" % i), num("c%d" % i), 1]) for i in range(7)])
    for d in [None, Interval.infinite(), Interval.closed(0, 6), Interval.closed(-1, 9), Interval.gte(0)]:
        check([p[0] for p in q.sample_points(d, step=2)] == [0, 2, 4, 6], "quotes at a fixed step")
        check([p[0] for p in q.sample_points(d, min_step=3)] == [0, 3, 6], "quotes at least a step apart")
        check([p[0] for p in q.sample_points(d)] == [0, 1, 2, 3, 4, 5, 6], "all quotes")
        s = q.sample(d, step=3)
        check(len(s) == 3, "samples of quotes at a fixed step")
        if len(s) == 3:
            same(s[1][3], num("c3"), "each the quote there")
        for o in [{"step": 4}, {"min_step": 4}]:
            r = q.get_range(d, **o)
            check(r.start == min(num("l0"), num("l4")) or len(o) != 1 or "min_step" in o, "the range of the quotes at a fixed step")


def c14_points_samples():
    """C16 C23"""
    p = Points([(i, num("y%d" % i)) for i in range(7)])
    for d in [None, Interval.infinite(), Interval.closed(0, 6), Interval.closed(-1, 9), Interval.gte(0)]:
        check([q[0] for q in p.sample_points(d, step=2)] == [0, 2, 4, 6], "points at a fixed step")
        check([q[0] for q in p.sample_points(d, min_step=3)] == [0, 3, 6], "points at least a step apart")
        check([q[0] for q in p.sample_points(d, step=1.5)] == [0, 1.5, 3, 4.5, 6], "positions at a fixed step")
        r = p.get_range(d, step=3)
        check(r.start == min(num("y0"), num("y3"), num("y6")), "the range of the samples at a fixed step")


def described(make, what):
    """C07 C20: a description is that of the curve as it is, whenever it was asked for"""
    p = Points([(0, 1), (1, 2)])
    c = make(p)
    before = repr(c)
    check(before == repr(make(Points([(0, 1), (1, 2)]))), what + ": described as a new one")
    n = c.name
    p.append((2, 5))
    check(repr(c) == repr(make(Points([(0, 1), (1, 2), (2, 5)]))), what + ": described as a new one after a change")
    check(c.name == n, what + ": not named by it")


def c20_described():
    """C07"""
    described(lambda p: p, "points")
    described(lambda p: p + 1, "a sum")
    described(lambda p: p.subset(Interval.gte(0)), "a subset")
    described(lambda p: p.integral(), "an integral")


def c14_displaced_slope():
    """C15 C34: the slope asked for reaches the source on both sides of a position between whole steps"""
    h = 3600
    p = Points([(i * h, num("y%d" % i)) for i in range(6)])
    for d in [1, -1, 2, 0]:
        o = p.offset(d, duration="1h")
        for u in [0.25, 0.5]:
            for kw in [{}, {"forward": True}, {"forward": False}, {"forward": True, "min_step": h}, {"forward": True, "min_step": 2 * h}, {"forward": False, "min_step": 2 * h}]:
                a = p.d_y(2 * h, **kw)
                b = p.d_y(3 * h, **kw)
                c = p.d_y(2 * h + u * h, **kw)
                same(o.d_y((2 + d) * h + u * h, **kw), c if d == 0 else a * (1 - u) + b * u, "the slopes of the source on both sides")
