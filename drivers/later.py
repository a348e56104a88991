"""C36: what is said of a position does not depend on what comes after it."""
from curvepy import Curve, Points, Constant, Line, Quotes
from intervalpy import Interval
import math

REGULAR = (0, 1, 2, 3, 4, 5)
IRREGULAR = (0, 1, 3, 7, 8, 12)
PREVIOUS = Points.interpolation.previous


def at(n, xs, ys=None):
    return [(xs[i], num("y%d" % i) if ys is None else ys[i]) for i in range(n)]


def stays(make, what, n=4, first=2, xs=REGULAR, ys=None, between=True, **kw):
    """one curve that grows, and curves made anew of less and of more"""
    p = Points(at(first, xs, ys), **kw)
    c = make(p)
    said = []
    for k in range(first, n + 1):
        if k > first:
            p.append(at(k, xs, ys)[-1])
        for x, y in said:
            same(c.y(x), y, what + ": the same after another position was appended")
        f = make(Points(at(k, xs, ys), **kw))
        for x, y in said:
            same(f.y(x), y, what + ": the same of a curve made with more positions")
        said = [(x, f.y(x)) for x in xs[:k]]
        if between:
            said = said + [((xs[i] + xs[i + 1]) / 2, f.y((xs[i] + xs[i + 1]) / 2)) for i in range(k - 1)]
        c.y(xs[k - 1])


def c36_points():
    stays(lambda p: p + 0, "points", xs=IRREGULAR, uniform=False)
    stays(lambda p: p + 0, "points, previous values", interpolation=PREVIOUS)


def c36_sma():
    for n in [1, 2, 3]:
        stays(lambda p: p.sma(n), "a simple average")


def c36_sma_irregular():
    for n in [1, 2, 3]:
        stays(lambda p: p.sma(n, uniform=False), "a simple average of irregular positions", xs=IRREGULAR, uniform=False)


def c36_sma_period():
    """C13"""
    for n in [1, 1.5, 2, 2.5, 3, 4, 5]:
        stays(lambda p: p.sma(n, is_period=True), "a simple average of a period", n=5, between=False)


def c36_sma_longer():
    """C13 C07: a period longer than the source"""
    p = Points(at(4, REGULAR))
    for n in [4.5, 5, 6, 100]:
        c = p.sma(n, is_period=True)
        check(c.domain.is_empty, "no average before its period")
        check(c.y(3) is None and c.y(2) is None, "no average before its period")
    check(p.sma(4, is_period=True).domain == Interval.closed(3, 3), "a period just complete")
    c = p.sma(5, is_period=True)
    p.append((4, num("v")))
    check(c.domain == Interval.closed(4, 4) and c.y(3) is None, "the average begins when its period is complete")
    check(c.y(4) is not None, "the average begins when its period is complete")


def c36_ema():
    """C26"""
    stays(lambda p: p.ema(0.25), "an average")
    stays(lambda p: p.ema(3), "an average of a degree")
    stays(lambda p: p.ema(3, is_period=True), "an average of a period")


def c36_ema_irregular():
    """C26"""
    stays(lambda p: p.ema(0.25, uniform=False), "an average of irregular positions", xs=IRREGULAR, uniform=False)
    stays(lambda p: p.ema(30, is_period=True, uniform=False), "an average of a period of irregular positions", xs=IRREGULAR, uniform=False)


def c36_ema_initial():
    """C26"""
    stays(lambda p: p.ema(0.5, init=p.sma(2)), "an average with an initial one")
    stays(lambda p: p.ema(0.5, init=3), "an average with an initial value")


def c36_smma():
    stays(lambda p: p.smma(2), "a smoothed average")
    stays(lambda p: p.smma(3), "a smoothed average of three")


def c36_integral():
    """C26"""
    stays(lambda p: p.integral(const=2), "an integral")
    stays(lambda p: p.integral(interpolation=PREVIOUS), "an integral of steps")
    stays(lambda p: p.integral(uniform=False), "an integral of irregular positions", xs=IRREGULAR, uniform=False)


def c36_trailing():
    """C26"""
    f = lambda ys: ys[0] - ys[-1]
    stays(lambda p: p.accumulator_map(f, 2), "a trailing difference")
    stays(lambda p: p.accumulator_map(f, 3, is_period=True), "a trailing difference of a period")
    stays(lambda p: p.accumulator_map(f, 2, uniform=False), "a trailing difference of irregular positions", xs=IRREGULAR, uniform=False)
    stays(lambda p: p.accumulator_map(f, 4, is_period=True, uniform=False), "a trailing difference of an irregular period", xs=IRREGULAR, uniform=False)


YS = (3, 1, 4, 1, 5, 2)


def c36_trailing_extremes():
    """C26"""
    for n in [1, 2, 3]:
        stays(lambda p: p.trailing_max(n), "the greatest of the last", ys=YS, n=6)
        stays(lambda p: p.trailing_min(n), "the least of the last", ys=YS, n=6)
        stays(lambda p: p.trailing_max(n, is_period=True, interpolation=PREVIOUS), "the greatest of a period", ys=YS, n=6)


def c36_rsi():
    stays(lambda p: p.rsi(2), "a relative strength", ys=YS, n=6)
    stays(lambda p: p.rsi(3), "a relative strength of three", ys=YS, n=6)


def c36_averages_of_averages():
    stays(lambda p: p.sma(2).sma(2), "an average of an average")
    stays(lambda p: p.ema(0.5).sma(2), "a simple average of an average")
    stays(lambda p: p.sma(2) - p.ema(0.5), "the difference of averages")


def c36_families():
    stays(lambda p: Curve.add_many(p.harmonic_smas(1, 2)), "a family of averages")
    stays(lambda p: Curve.add_many(p.centered_macs(1, 2)), "a family of differences")


def c36_operators():
    """C11"""
    stays(lambda p: p * 2 + p, "a sum")
    stays(lambda p: Curve.max(p, p.ema(0.5)), "the greater of two", ys=YS, n=6)
    stays(lambda p: p.offset(1) + p, "a sum with a delayed one")
    stays(lambda p: p.map(lambda y: 3 * y), "a map")


def c36_slope():
    """C34"""
    stays(lambda p: p.differential(), "a derivative", between=False)


def bar(i):
    return (i, (5 + i, 9 + i - 2 * (i % 2), 2 + i, 4 + i + i % 3, 1))


def c36_quotes():
    """C22"""
    said = []
    for k in range(2, 6):
        q = Quotes(1, quote_points=[bar(i) for i in range(k)])
        cs = [q.close, q.high, q.low, q.open, q.volume, q.hl2, q.trailing_high(2), q.trailing_low(2), q.high.sma(2), q.close.ema(0.5)]
        for i, x, y in said:
            same(cs[i].y(x), y, "the past of quotes stays as it is")
        said = [(i, j, cs[i].y(j)) for i in range(len(cs)) for j in range(k)]
