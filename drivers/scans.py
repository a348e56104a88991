"""C08, C09: curves computed by scanning forward, and their caches."""
from _driver_common import Src, watch
from curvepy import (Curve, Constant, Points, Line, Scan, Accumulator, AccumulatorMap, EMA, Integral, SMA, Extremas, Trend)
from intervalpy import Interval
import math


def regular(n, x0=0, step=1):
    ps = []
    for i in range(n):
        ps.append((x0 + i * step, num("y%d" % i)))
    return Points(ps)


def irregular():
    return Points([(0, num("y0")), (1, num("y1")), (4, num("y2")), (6, num("y3"))], uniform=False)


def like_fresh(make, source, before, change, after, what):
    """queried, changed, queried again: as if computed from scratch"""
    c = make()
    for x in before:
        c.y(x)
    change()
    for x in after:
        same(c.y(x), make().y(x), what + ": a value after a change is the value computed from scratch")


def any_order(make, positions, what):
    """values do not depend on which were asked for before"""
    expected = [make().y(x) for x in positions]
    c = make()
    for i in range(len(positions)):
        same(c.y(positions[i]), expected[i], what + ": ascending queries")
    for i in range(len(positions)):
        j = len(positions) - 1 - i
        same(c.y(positions[j]), expected[j], what + ": descending queries")
    d = make()
    for i in range(len(positions)):
        j = len(positions) - 1 - i
        same(d.y(positions[j]), expected[j], what + ": descending queries from the start")
    for i in range(len(positions)):
        same(d.y(positions[i]), expected[i], what + ": asked again")


def histories(make, p, what, positions):
    """append, replace, reset of a suffix, reset of all, set"""
    like_fresh(lambda: make(p()), None, [], lambda: None, positions, what)


def history_append(make, what, first=0):
    p = regular(3)
    like_fresh(lambda: make(p), p, [2], lambda: p.append((3, num("v"))), [2, 3], what)
    like_fresh(lambda: make(p), p, [first, 2], lambda: p.append((4, num("w"))), [3, 4], what)


def history_append_list(make, what):
    p = regular(3)
    like_fresh(lambda: make(p), p, [1], lambda: p.append_list([(3, num("v")), (4, num("w"))]), [4, 2], what)


def history_replace(make, what):
    for i in [0, 1, 2]:
        p = regular(3)
        like_fresh(lambda: make(p), p, [2], lambda: p.replace((i, num("v%d" % i))), [2, 1], what)


def history_replace_last(make, what):
    """the last point is replaced again and again, as a live quote is"""
    p = regular(3)

    def change():
        p.replace((2, num("v")))
        p.replace((2, num("w")))
        p.append((3, num("u")))
        p.replace((3, num("t")))
    like_fresh(lambda: make(p), p, [2], change, [3, 2], what)


def history_between(make, what):
    """queried between two changes"""
    p = regular(3)
    c = make(p)
    c.y(2)
    p.append((3, num("v")))
    same(c.y(3), make(p).y(3), what + ": after the first change")
    p.replace((2, num("w")))
    same(c.y(3), make(p).y(3), what + ": after the second change")
    p.replace((3, num("u")))
    same(c.y(3), make(p).y(3), what + ": after the third change")
    same(c.y(2), make(p).y(2), what + ": after the third change")


def history_reset(make, what):
    p = regular(4)
    like_fresh(lambda: make(p), p, [3], lambda: p.reset(Interval.closed(2, 3)), [1, 3, 0], what)


def history_reset_all(make, what):
    p = regular(3)

    def change():
        p.reset()
        p.set([(0, num("v0")), (1, num("v1")), (2, num("v2"))])
    like_fresh(lambda: make(p), p, [2], change, [2, 1], what)


def history_set(make, what):
    p = regular(3)
    like_fresh(lambda: make(p), p, [2], lambda: p.set([(1, num("v0")), (2, num("v1")), (3, num("v2"))]), [3, 2], what)


def history_set_earlier(make, what):
    """the new points start before the old"""
    p = regular(3, x0=2)
    like_fresh(lambda: make(p), p, [4], lambda: p.set([(0, num("v0")), (1, num("v1")), (2, num("v2")), (3, num("v3"))]), [3, 1], what)


def history_from_empty(make, what):
    p = Points([])
    like_fresh(lambda: make(p), p, [0], lambda: p.append_list([(0, num("v0")), (1, num("v1")), (2, num("v2"))]), [2, 1], what)


def EMA_(p):
    return p.ema(0.5)


def c08_ema_append():
    """C05"""
    history_append(EMA_, "ema")


def c08_ema_append_list():
    history_append_list(EMA_, "ema")


def c08_ema_replace():
    history_replace(EMA_, "ema")


def c08_ema_replace_last():
    history_replace_last(EMA_, "ema")


def c08_ema_between():
    history_between(EMA_, "ema")


def c08_ema_reset():
    history_reset(EMA_, "ema")


def c08_ema_reset_all():
    history_reset_all(EMA_, "ema")


def c08_ema_set():
    history_set(EMA_, "ema")
    history_set_earlier(EMA_, "ema")


def c08_ema_from_empty():
    history_from_empty(EMA_, "ema")


def c08_ema_order():
    """C09"""
    p = regular(4)
    any_order(lambda: p.ema(0.5), [0, 1, 2, 3], "ema")


def c08_ema_between_points():
    p = regular(4)
    any_order(lambda: p.ema(0.5), [0.5, 1, 2.5], "ema")


def INTEGRAL(p):
    return p.integral()


def c08_integral_append():
    """C05 C26"""
    history_append(INTEGRAL, "integral")


def c08_integral_append_list():
    """C26"""
    history_append_list(INTEGRAL, "integral")


def c08_integral_replace():
    """C26"""
    history_replace(INTEGRAL, "integral")


def c08_integral_replace_last():
    """C26"""
    history_replace_last(INTEGRAL, "integral")


def c08_integral_between():
    """C26"""
    history_between(INTEGRAL, "integral")


def c08_integral_reset():
    """C26"""
    history_reset(INTEGRAL, "integral")


def c08_integral_reset_all():
    """C26"""
    history_reset_all(INTEGRAL, "integral")


def c08_integral_set():
    """C26"""
    history_set(INTEGRAL, "integral")
    history_set_earlier(INTEGRAL, "integral")


def c08_integral_order():
    """C09 C26"""
    p = regular(4)
    any_order(lambda: p.integral(), [0, 1, 2, 3], "integral")


def SMA_(p):
    return p.sma(2)


def c08_sma_append():
    """C05 C13"""
    history_append(SMA_, "sma", first=1)


def c08_sma_append_list():
    """C13"""
    history_append_list(SMA_, "sma")


def c08_sma_replace():
    """C13"""
    history_replace(SMA_, "sma")


def c08_sma_replace_last():
    """C13"""
    history_replace_last(SMA_, "sma")


def c08_sma_between():
    """C13"""
    history_between(SMA_, "sma")


def c08_sma_reset():
    """C13"""
    history_reset(SMA_, "sma")


def c08_sma_reset_all():
    """C13"""
    history_reset_all(SMA_, "sma")


def c08_sma_set():
    """C13"""
    history_set(SMA_, "sma")
    history_set_earlier(SMA_, "sma")


def c08_sma_order():
    """C09 C13"""
    p = regular(5)
    any_order(lambda: p.sma(3), [2, 3, 4], "sma")


def c08_sma_period_order():
    """C09 C13"""
    p = regular(5)
    any_order(lambda: p.sma(2, is_period=True), [2, 3, 4], "sma over a period")


def TRAILING(p):
    return p.accumulator_map(lambda ys: sum(ys), 2)


def c08_trailing_append():
    """C05 C13"""
    history_append(TRAILING, "accumulator_map")


def c08_trailing_append_list():
    """C13"""
    history_append_list(TRAILING, "accumulator_map")


def c08_trailing_replace():
    """C13"""
    history_replace(TRAILING, "accumulator_map")


def c08_trailing_replace_last():
    """C13"""
    history_replace_last(TRAILING, "accumulator_map")


def c08_trailing_between():
    """C13"""
    history_between(TRAILING, "accumulator_map")


def c08_trailing_reset():
    """C13"""
    history_reset(TRAILING, "accumulator_map")


def c08_trailing_reset_all():
    """C13"""
    history_reset_all(TRAILING, "accumulator_map")


def c08_trailing_set():
    """C13"""
    history_set(TRAILING, "accumulator_map")
    history_set_earlier(TRAILING, "accumulator_map")


def c08_trailing_order():
    """C09 C13"""
    p = regular(4)
    any_order(lambda: TRAILING(p), [0, 1, 2, 3], "accumulator_map")


def c08_trailing_max():
    """C13"""
    p = regular(3)
    like_fresh(lambda: p.trailing_max(2), p, [2], lambda: p.replace((1, num("v"))), [2, 1], "trailing_max")


def c08_trailing_min():
    """C13"""
    p = regular(3)
    like_fresh(lambda: p.trailing_min(2), p, [2], lambda: p.append((3, num("v"))), [3, 2], "trailing_min")


def RUNNING(p):
    f = fn("tfm", 3, "num")
    return Accumulator(p, f)


def c08_accumulator_append():
    """C05 C26"""
    history_append(RUNNING, "accumulator")


def c08_accumulator_replace():
    """C26"""
    history_replace(RUNNING, "accumulator")


def c08_accumulator_replace_last():
    """C26"""
    history_replace_last(RUNNING, "accumulator")


def c08_accumulator_between():
    """C26"""
    history_between(RUNNING, "accumulator")


def c08_accumulator_reset():
    """C26"""
    history_reset(RUNNING, "accumulator")
    history_reset_all(RUNNING, "accumulator")


def c08_accumulator_set():
    """C26"""
    history_set(RUNNING, "accumulator")
    history_set_earlier(RUNNING, "accumulator")


def c08_accumulator_order():
    """C09 C26"""
    p = regular(4)
    any_order(lambda: RUNNING(p), [0, 1, 2, 3], "accumulator")


def c08_smma():
    """C13 C05"""
    p = regular(4)
    like_fresh(lambda: p.smma(2), p, [3], lambda: p.replace((1, num("v"))), [3, 2], "smma")


def c08_smma_append():
    """C13 C05"""
    p = regular(4)
    like_fresh(lambda: p.smma(2), p, [3], lambda: p.append((4, num("v"))), [4, 3], "smma")


def c08_ema_of_init():
    """C13 C05: the initial function changes"""
    p = regular(3)
    q = Line(const=num("k"), slope=num("m"))
    like_fresh(lambda: p.ema(0.5, init=q), p, [2], lambda: q.set(const=num("k2"), slope=num("m2")), [2, 0], "ema with an initial function")


def c08_nested():
    """C05 C13: a scan over a scan"""
    p = regular(4)
    like_fresh(lambda: p.sma(2).ema(0.5), p, [3], lambda: p.replace((2, num("v"))), [3, 2], "an ema of an sma")


def c08_nested_append():
    """C05 C13"""
    p = regular(3)
    like_fresh(lambda: p.ema(0.5).trailing_max(2), p, [2], lambda: p.append((3, num("v"))), [3, 2], "a trailing maximum of an ema")


def c08_over_a_map():
    """C05"""
    p = regular(3)
    like_fresh(lambda: p.map(lambda y: 2 * y, skip_none=True).ema(0.5), p, [2], lambda: p.replace((1, num("v"))), [2, 1], "an ema of a map")


def c08_irregular():
    """C26"""
    p = irregular()
    like_fresh(lambda: p.integral(uniform=False), p, [6], lambda: p.append((9, num("v"))), [9, 6, 4], "integral over irregular points")


def c08_irregular_replace():
    """C26"""
    p = irregular()
    like_fresh(lambda: p.integral(uniform=False), p, [6], lambda: p.replace((4, num("v"))), [6, 4, 1], "integral over irregular points")


def c08_irregular_insert():
    """C26"""
    p = irregular()
    like_fresh(lambda: p.integral(uniform=False), p, [6], lambda: p.replace((3, num("v"))), [6, 4, 3], "integral over irregular points")


def c08_irregular_ema():
    p = irregular()
    like_fresh(lambda: p.ema(0.5, uniform=False), p, [4], lambda: p.replace((1, num("v"))), [6, 4, 1], "ema over irregular points")


def c08_missing_values():
    """C10: a source with missing values"""
    p = Points([(0, maybe("y0")), (1, maybe("y1")), (2, maybe("y2"))])
    any_order(lambda: p.ema(0.5), [1, 2], "ema over missing values")


def c08_missing_values_replace():
    """C10"""
    p = Points([(0, num("y0")), (1, maybe("y1")), (2, num("y2"))])
    like_fresh(lambda: p.ema(0.5), p, [2], lambda: p.replace((1, maybe("v"))), [2, 1], "ema over missing values")


def c08_missing_values_integral():
    """C10 C26"""
    p = Points([(0, num("y0")), (1, maybe("y1")), (2, num("y2"))])
    like_fresh(lambda: p.integral(), p, [2], lambda: p.replace((1, maybe("v"))), [2, 1], "integral over missing values")


# ----------------------------------------------------------------- Extremas


def wave():
    return Points([(0, 1), (1, num("y1")), (2, -1), (3, num("y3")), (4, 1)])


def c08_extremas_append():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, num("y3"))])
    q = lambda: Extremas(p, 0)
    like_fresh(q, p, [3], lambda: p.append((4, num("v"))), [2, 1, 4], "extremas")


def c08_extremas_replace_first():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    like_fresh(lambda: Extremas(p, 0), p, [4], lambda: p.replace((0, num("v"))), [2, 1], "extremas")


def c08_extremas_replace_extrema():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    like_fresh(lambda: Extremas(p, 0), p, [4], lambda: p.replace((1, num("v"))), [2, 1], "extremas")


def c08_extremas_replace_between():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    like_fresh(lambda: Extremas(p, 0), p, [4], lambda: p.replace((2, num("v"))), [3, 2], "extremas")


def c08_extremas_replace_later():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    like_fresh(lambda: Extremas(p, 0), p, [4], lambda: p.replace((3, num("v"))), [3, 2], "extremas")


def c08_extremas_replace_last():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    like_fresh(lambda: Extremas(p, 0), p, [4], lambda: p.replace((4, num("v"))), [3, 2, 1], "extremas")


def c08_extremas_order():
    """C30 C09"""
    p = Points([(0, 1), (1, num("y1")), (2, -1), (3, -2), (4, 3)])
    any_order(lambda: Extremas(p, 0), [1, 2, 3, 4], "extremas")


def c08_extremas_reference():
    """C30 C05"""
    p = Points([(0, 1), (1, 2), (2, -1), (3, -2), (4, 3)])
    r = Constant(0)

    def change():
        r.value = num("r")
    like_fresh(lambda: Extremas(p, r), p, [4], change, [4, 3, 2, 1], "extremas")


# ------------------------------------------------------------------- scanning


class Recorder(Scan):

    def __init__(self, func, **kw):
        super().__init__(func, self.seen, **kw)

    def seen(self, x, y):
        log("scan", x, y)

    def scanned_y(self, x):
        return None


def c09_each_point_once():
    """each point of the source is scanned once, in ascending order, with its
    value, whichever positions are asked for"""
    p = regular(4)
    c = Recorder(p)
    c.y(2)
    check(logged("scan") == [(0, num("y0")), (1, num("y1")), (2, num("y2"))], "scanned from the first point up to the position")
    c.y(1)
    c.y(2)
    check(len(logged("scan")) == 3, "nothing is scanned twice")
    c.y(3)
    check(logged("scan") == [(0, num("y0")), (1, num("y1")), (2, num("y2")), (3, num("y3"))], "the scan continues where it stopped")
    c.y(0)
    check(len(logged("scan")) == 4, "nothing is scanned twice")


def c09_after_append():
    p = regular(2)
    c = Recorder(p)
    c.y(1)
    p.append((2, num("v")))
    check(len(logged("scan")) == 2, "nothing is scanned before it is asked for")
    c.y(2)
    check(logged("scan") == [(0, num("y0")), (1, num("y1")), (2, num("v"))], "an appended point is scanned once, the others are not scanned again")


def c09_after_replace():
    p = regular(3)
    c = Recorder(p)
    c.y(2)
    forget_log()
    p.replace((1, num("v")))
    c.y(2)
    check(logged("scan") == [(0, num("y0")), (1, num("v")), (2, num("y2"))], "after an earlier point changed, all is scanned again, once")


def c09_out_of_domain():
    """C28"""
    p = regular(3)
    c = Recorder(p)
    c.y(5)
    c.y(-1)
    check(logged("scan") == [], "nothing is scanned for a position outside the domain")


def c09_between_points():
    p = regular(3)
    c = Recorder(p)
    c.y(1.5)
    check(logged("scan")[0] == (0, num("y0")), "scanned from the first point")
    for s in logged("scan"):
        check(s[0] <= 2, "not scanned beyond the next point")
    c.y(2)
    n = len(logged("scan"))
    check(n == 3, "each point once")


def c09_sample():
    """C23"""
    p = regular(3)
    c = Recorder(p)
    c.sample_points()
    check(logged("scan") == [(0, num("y0")), (1, num("y1")), (2, num("y2"))], "sampling scans each point once")


def c09_not_ascending_is_refused():
    """a source whose steps do not ascend is refused, not scanned twice"""

    class Stuck(Src):
        def x_next(self, x, min_step=None, limit=None):
            return x
    s = Stuck("s", Interval.closed(0, 10))
    c = Recorder(s)
    failed = False
    try:
        c.y(5)
    except Exception:
        failed = True
    check(failed, "a step that does not ascend is refused")
    check(len(logged("scan")) == 1, "and not scanned")


def c09_any_step():
    """whatever the steps of the source, scanned positions strictly ascend"""
    s = Src("s", Interval.closed(0, 10))
    c = Recorder(s)
    failed = False
    try:
        c.scan(num("x"))
    except Exception:
        failed = True
    l = logged("scan")
    for i in range(1, len(l)):
        check(l[i - 1][0] < l[i][0], "scanned positions strictly ascend")


def c09_open_start():
    """an open start is not scanned"""

    class Wholes(Src):
        def x_next(self, x, min_step=None, limit=None):
            return math.floor(x) + 1
    c = Recorder(Wholes("s", Interval.open_closed(0, 2)))
    c.y(2)
    check([l[0] for l in logged("scan")] == [1, 2], "a position outside the domain is not scanned")


def three():
    """three points at unknown positions, at least one apart"""
    a = num("a")
    b = num("b")
    c = num("c")
    assume(a + 1 <= b)
    assume(b + 1 <= c)
    return a, b, c


def c09_unknown_positions():
    a, b, c = three()
    r = Recorder(Points([(a, 1), (b, 2), (c, 3)], uniform=False))
    r.y(b)
    check(logged("scan") == [(a, 1), (b, 2)], "scanned up to the position")
    r.y(a)
    r.y(c)
    r.y(b)
    check(logged("scan") == [(a, 1), (b, 2), (c, 3)], "each point is scanned once, in ascending order")


def c09_unknown_position_asked_for():
    r = Recorder(regular(4))
    x = num("x")
    r.y(x)
    l = logged("scan")
    for i in range(1, len(l)):
        check(l[i - 1][0] < l[i][0], "scanned positions strictly ascend")
    if x >= 0 and x <= 3:
        check(len(l) > 0 and l[0][0] == 0 and l[-1][0] >= x, "scanned from the first point up to the position")
    else:
        check(len(l) == 0, "nothing is scanned for a position outside the domain")


def c08_unknown_positions():
    """C26 C09"""
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb")), (c, num("yc"))], uniform=False)
    like_fresh(lambda: p.integral(uniform=False), p, [c], lambda: p.replace((b, num("v"))), [c, b], "integral")


def c08_unknown_positions_ema():
    """C09 C13"""
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb")), (c, num("yc"))], uniform=False)
    like_fresh(lambda: p.ema(num("alpha"), uniform=False), p, [c], lambda: p.replace((b, num("v"))), [c, b], "ema")


def c08_unknown_positions_append():
    """C26 C09"""
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb"))], uniform=False)
    like_fresh(lambda: p.integral(uniform=False), p, [b], lambda: p.append((c, num("v"))), [c, b], "integral")


def c09_points_accumulated_once():
    """C08: an accumulator holds each point once"""
    p = regular(3)
    c = Accumulator(p, lambda x, y, last: (last or 0) + 1)
    c.y(2)
    c.y(0)
    c.y(1)
    check(c.y(0) == 1 and c.y(1) == 2 and c.y(2) == 3, "each point is accumulated once")
    p.append((3, 1))
    check(c.y(3) == 4, "each point is accumulated once")
    p.replace((2, 5))
    check(c.y(3) == 4, "each point is accumulated once")
    p.reset(Interval.closed(2, 3))
    check(c.y(1) == 2, "each point is accumulated once")
    p.append((2, 7))
    check(c.y(2) == 3, "each point is accumulated once")


# ----------------------------------------------------- updates seen from inside


def c08_queried_during_update():
    """C06: a value asked for while the source is updating leaves no trace"""
    p = regular(3)
    c = p.ema(0.5)
    p.add_observer(begin=lambda: c.y(2), end=lambda: c.y(2))
    p.replace((1, num("v")))
    same(c.y(2), p.ema(0.5).y(2), "ema asked for while its source updates")
    p.append((3, num("w")))
    same(c.y(3), p.ema(0.5).y(3), "ema asked for while its source updates")
