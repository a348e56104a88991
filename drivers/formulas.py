"""C13, C26, C14: averages, integrals, accumulations and trailing maps against
their defining formulas."""
from _driver_common import Src, watch
from curvepy import (Curve, Constant, Points, Line, Accumulator, AccumulatorMap, EMA, Integral, SMA)
from curvepy.const import GOLD
from intervalpy import Interval
import math

PREV = Points.interpolation.previous
NEXT = Points.interpolation.next
LINEAR = Points.interpolation.linear


def regular(n, x0=0, step=1):
    return Points([(x0 + i * step, num("y%d" % i)) for i in range(n)])


def irregular():
    return Points([(0, num("y0")), (1, num("y1")), (4, num("y2")), (6, num("y3"))], uniform=False)


def fails(f, what):
    """whatever is refused is refused with an error"""
    try:
        f()
    except Exception:
        return
    check(False, what + " is refused")


def three():
    a = num("a")
    b = num("b")
    c = num("c")
    assume(b - a > 1)
    assume(c - b > 1)
    return a, b, c


def area(p, q, mode):
    if p[1] is None or q[1] is None:
        return 0
    if mode == PREV:
        return (q[0] - p[0]) * p[1]
    if mode == NEXT:
        return (q[0] - p[0]) * q[1]
    return (q[0] - p[0]) * (p[1] + q[1]) / 2


def integral_values(ps, const, mode):
    """the integral at each of the points: nothing before the first value"""
    total = None
    vs = []
    for i in range(len(ps)):
        if ps[i][1] is not None and total is None:
            total = 0
        if i > 0 and total is not None:
            total = total + area(ps[i - 1], ps[i], mode)
        vs.append(total + const if total is not None else None)
    return vs


def integral_is(p, const, mode, what, order=None, **kw):
    ps = p.sample_points()
    vs = integral_values(ps, const, mode)
    c = p.integral(const=const, interpolation=mode, **kw)
    for i in order or range(len(ps)):
        same(c.y(ps[i][0]), vs[i], what + ": the areas up to the position, and the constant")
    return c


# -------------------------------------------------------------------- integral


def c26_integral_linear():
    """C13"""
    c = integral_is(regular(4), num("k"), LINEAR, "trapezoids")
    same(c.y(1.5), (c.y(1) + c.y(2)) / 2, "between two positions the integral is interpolated")


def c26_integral_default():
    """C14: by default linear from zero"""
    p = regular(3)
    ps = p.sample_points()
    vs = integral_values(ps, 0, LINEAR)
    for c in [p.integral(), Integral(p)]:
        for i in range(3):
            same(c.y(i), vs[i], "an integral is linear and starts at zero by default")


def c26_integral_previous():
    """C14"""
    integral_is(regular(4), num("k"), PREV, "each value held until the next")


def c26_integral_next():
    """C14"""
    integral_is(regular(4), num("k"), NEXT, "each value held since the previous")


def c26_integral_zero_value():
    """C10"""
    p = Points([(0, 0), (1, num("y1")), (2, 0), (3, 0), (4, num("y4"))])
    integral_is(p, 0, LINEAR, "zeros are values")


def c26_integral_irregular():
    for m in [LINEAR, PREV, NEXT]:
        integral_is(irregular(), num("k"), m, "irregular spacing", uniform=False)


def c26_integral_unknown_positions():
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb")), (c, num("yc"))], uniform=False)
    integral_is(p, num("k"), LINEAR, "unknown positions", uniform=False)


def c26_integral_backwards():
    """C08"""
    integral_is(regular(3), num("k"), LINEAR, "asked backwards", order=[2, 1, 0])


def gap_points():
    return Points([(0, num("y0")), (1, num("y1")), (2, None), (3, num("y3")), (4, num("y4"))])


def c26_integral_gap():
    """C10: a missing value leaves the sum as it is"""
    for m in [LINEAR, PREV, NEXT]:
        integral_is(gap_points(), num("k"), m, "a missing value in the middle")


def c26_integral_gap_first():
    """C10"""
    p = Points([(0, None), (1, num("y1")), (2, num("y2")), (3, num("y3"))])
    for m in [LINEAR, PREV, NEXT]:
        integral_is(p, num("k"), m, "the first value missing")


def c26_integral_gap_last():
    """C10"""
    p = Points([(0, num("y0")), (1, num("y1")), (2, None)])
    integral_is(p, num("k"), LINEAR, "the last value missing")


def c26_integral_maybe():
    """C10"""
    p = Points([(0, maybe("y0")), (1, maybe("y1")), (2, maybe("y2"))])
    integral_is(p, num("k"), LINEAR, "values that may be missing")


def c26_integral_mode_unknown():
    p = regular(2)
    c = Integral(p, interpolation=7)
    fails(lambda: c.y(1), "an unknown interpolation")


def c26_integral_constant():
    """of a constant"""
    c = num("c")
    i = Constant(c, (0, 4)).integral(const=num("k"))
    same(i.y(4), 4 * c + num("k"), "of a constant: value times length")


# ------------------------------------------------------------------------- ema


def ema_values(ps, init, weight):
    out = []
    v = None
    for i in range(len(ps)):
        x, y = ps[i]
        if y is None:
            pass
        elif v is None:
            v = init(x) if init is not None else y
        else:
            v = v + weight(ps, i) * (y - v)
        out.append(v)
    return out


def ema_is(p, c, init, weight, what):
    ps = p.sample_points()
    vs = ema_values(ps, init, weight)
    for i in range(len(ps)):
        same(c.y(ps[i][0]), vs[i], what)


def c26_ema_weight():
    """C13 C14"""
    p = regular(4)
    w = num("w")
    assume(w > 0)
    for c in [p.ema(w), EMA(p, w, is_period=False), p.ema(w, is_period=False)]:
        ema_is(p, c, None, lambda ps, i: w, "each value moves the average by its weight")


def c26_ema_period():
    """C13 C14"""
    w = num("w")
    assume(w > 0)
    for p in [regular(3), irregular()]:
        for c in [p.ema(w, is_period=True, uniform=False), EMA(p, w, uniform=False)]:
            ema_is(p, c, None, lambda ps, i: (ps[i][0] - ps[i - 1][0]) / w, "the weight of a period is the step by the period")


def c26_ema_unknown_positions():
    """C13"""
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb")), (c, num("yc"))], uniform=False)
    w = num("w")
    assume(w > 0)
    ema_is(p, p.ema(w, uniform=False), None, lambda ps, i: w, "unknown positions")
    ema_is(p, p.ema(w, is_period=True, uniform=False), None, lambda ps, i: (ps[i][0] - ps[i - 1][0]) / w, "unknown positions, a period")


def c26_ema_init():
    """C13 C14"""
    p = regular(3)
    w = num("w")
    assume(w > 0)
    s = Src("init")
    for c in [p.ema(w, init=s), EMA(p, w, is_period=False, init=s)]:
        ema_is(p, c, s.y, lambda ps, i: w, "the first value is the initial curve's")
    ema_is(p, p.ema(w, init=0), lambda x: 0, lambda ps, i: w, "zero is an initial value")


def c26_ema_init_later():
    """C13 C10: an initial curve that begins later than the source"""
    w = num("w")
    assume(w > 0)
    s = Constant(num("k")).subset(Interval.gte(1))
    p = regular(4)
    y = [p.y(i) for i in range(4)]
    for c in [p.ema(w, init=s), EMA(p, w, is_period=False, init=s)]:
        check(c.y(0) is None, "no average before the initial curve begins")
        same(c.y(1), num("k"), "the first value is the initial curve's")
        same(c.y(2), num("k") + w * (y[2] - num("k")), "moved by the next value")
    s = Constant(num("k")).subset(Interval.gte(9))
    check([p.ema(w, init=s).y(i) for i in range(4)] == [None] * 4, "no average where the initial curve has no value")


def c26_ema_zero():
    """C10"""
    p = Points([(0, 0), (1, num("y1")), (2, 0)])
    ema_is(p, p.ema(num("w")), None, lambda ps, i: num("w"), "zeros are values")


def c26_ema_gap():
    """C10"""
    p = gap_points()
    ema_is(p, p.ema(num("w")), None, lambda ps, i: num("w"), "a missing value leaves the average as it is")
    q = Points([(0, None), (1, num("y1")), (2, num("y2"))])
    ema_is(q, q.ema(num("w")), None, lambda ps, i: num("w"), "a first value missing")
    ema_is(q, q.ema(num("w"), init=Src("init")), Src("init").y, lambda ps, i: num("w"), "a first value missing, initial curve")


def c26_ema_maybe():
    """C10"""
    p = Points([(0, maybe("y0")), (1, maybe("y1")), (2, maybe("y2"))])
    ema_is(p, p.ema(num("w")), None, lambda ps, i: num("w"), "values that may be missing")


def c13_smma():
    """an exponential average of weight 1 / degree, started with the simple average"""
    p = regular(5)
    c = p.smma(3)
    s = p.sma(3)
    y = [num("y%d" % i) for i in range(5)]
    v = None
    for i in range(5):
        if v is None:
            v = s.y(i)
        else:
            v = v + (y[i] - v) / 3
        same(c.y(i), v, "smma")


def c13_smma_irregular():
    """C14"""
    p = irregular()
    c = p.smma(2, uniform=False)
    s = p.sma(2, uniform=False)
    v = None
    for x, y in p.sample_points():
        if v is None:
            v = s.y(x)
        else:
            v = v + (y - v) / 2
        same(c.y(x), v, "smma over irregular points")


# --------------------------------------------------------------- accumulations


def c26_accumulator():
    """C14"""
    for kw in [{}, {"interpolation": LINEAR}]:
        p = regular(4)

        def step(x, y, last):
            return app("f", x, y) if last is None else app("g", x, y, last)
        c = Accumulator(p, step, **kw)
        v = None
        vs = []
        for x, y in p.sample_points():
            v = step(x, y, v)
            vs.append(v)
        for i in range(4):
            same(c.y(i), vs[i], "the step function of position, value and previous result")
        same(c.y(2.25), 0.75 * vs[2] + 0.25 * vs[3], "interpolated in between")


def c26_accumulator_modes():
    """C14"""
    p = regular(3)

    def step(x, y, last):
        return app("f", x, y) if last is None else app("g", x, y, last)
    a = Accumulator(p, step)
    b = Accumulator(p, step, interpolation=PREV)
    c = Accumulator(p, step, interpolation=NEXT)
    a.y(2)
    b.y(2)
    c.y(2)
    same(b.y(1.25), a.y(1), "held until the next")
    same(c.y(1.25), a.y(2), "held since the previous")


def c26_accumulator_falsy():
    """C10: a result that is zero or nothing is the previous result"""
    p = regular(3)
    seen = []

    def step(x, y, last):
        seen.append((x, last))
        return 0 if x == 0 else None
    c = Accumulator(p, step)
    same(c.y(2), None, "a result of nothing")
    same(c.y(0), 0, "a result of zero")
    check(seen == [(0, None), (1, 0), (2, None)], "the previous result, even when it is zero")


def trailing_is(p, c, f, n, what, positions=None):
    ps = p.sample_points()
    for i in range(len(ps)):
        ys = []
        for j in range(n):
            if i - j < 0:
                break
            if j > 0 and ps[i - j][1] is None:
                break
            ys.append(ps[i - j][1])
        same(c.y(ps[i][0]), f(ps[i][0], ys), what)


def c26_map_degree():
    """C13 C14"""
    p = regular(4)

    def f(ys):
        v = napp("f", 0)
        for y in ys:
            v = napp("g", v, y)
        return v

    def g(x, ys):
        return f(ys)
    for n in [1, 2, 3, 5]:
        for c in [p.accumulator_map(f, n), AccumulatorMap(p, f, n, is_period=False), p.accumulator_map(f, n, is_period=False)]:
            trailing_is(p, c, g, n, "the function of the last values, latest first")


def c26_map_position():
    p = regular(3)

    def f(x, ys):
        v = napp("f", x)
        for y in ys:
            v = napp("g", v, y)
        return v
    trailing_is(p, p.accumulator_map(f, 2), f, 2, "the function of the position and the last values")


def c26_map_gap():
    """C10"""
    p = gap_points()

    def f(x, ys):
        v = napp("f", x)
        for y in ys:
            v = napp("g", v, -1 if y is None else y)
        return v
    c = p.accumulator_map(f, 2)
    for x in [0, 1, 2, 4]:
        ys = [p.y(x)]
        if x > 0 and p.y(x - 1) is not None:
            ys.append(p.y(x - 1))
        same(c.y(x), f(x, ys), "the values of the last positions")


def c26_map_period():
    """C13 C14"""
    p = regular(4)

    def f(ys):
        v = napp("f", 0)
        for y in ys:
            v = napp("g", v, y)
        return v
    ps = p.sample_points()
    for n in [0.5, 1, 2, 2.5, 9]:
        for c in [p.accumulator_map(f, n, is_period=True), AccumulatorMap(p, f, n)]:
            for i in range(4):
                ys = []
                for j in range(i, -1, -1):
                    if i == j or ps[j][0] >= ps[i][0] - n:
                        ys.append(ps[j][1])
                same(c.y(i), f(ys), "the function of the values of the last period, latest first")


def c26_map_period_irregular():
    """C14"""
    p = irregular()

    def f(ys):
        v = napp("f", 0)
        for y in ys:
            v = napp("g", v, y)
        return v
    ps = p.sample_points()
    for n in [1, 2, 3, 4, 9]:
        c = p.accumulator_map(f, n, is_period=True, uniform=False)
        for i in range(4):
            ys = []
            for j in range(i, -1, -1):
                if i == j or ps[j][0] >= ps[i][0] - n:
                    ys.append(ps[j][1])
            same(c.y(ps[i][0]), f(ys), "the function of the values of the last period, irregular points")


def c26_map_refuses():
    p = regular(3)
    f = lambda ys: 0
    fails(lambda: AccumulatorMap(p, f, 0), "a period of zero")
    fails(lambda: AccumulatorMap(p, f, -1), "a negative period")
    fails(lambda: AccumulatorMap(p, f, None), "no period")
    fails(lambda: AccumulatorMap(p, f, 0, is_period=False), "a degree of zero")
    fails(lambda: AccumulatorMap(p, f, -2, is_period=False), "a negative degree")
    fails(lambda: AccumulatorMap(p, lambda: 0, 2), "a function of nothing")
    fails(lambda: AccumulatorMap(p, lambda a, b, c: 0, 2), "a function of three")


def least(ys):
    v = None
    for y in ys:
        if y is not None and (v is None or y < v):
            v = y
    return v


def greatest(ys):
    v = None
    for y in ys:
        if y is not None and (v is None or y > v):
            v = y
    return v


def c13_trailing_min():
    """C26"""
    p = regular(3)
    c = p.trailing_min(2)
    trailing_is(p, c, lambda x, ys: least(ys), 2, "the least of the last values")


def c13_trailing_infinite():
    """C26, C10"""
    v = num("v")
    for i in [math.inf, -math.inf]:
        p = Points([(0, v), (1, i), (2, v)])
        low, high = p.trailing_min(2), p.trailing_max(2)
        for x in [1, 2]:
            if i > 0:
                same(low.y(x), v, "the least of a number and infinity")
                check(high.y(x) == i, "infinity is the greatest")
            else:
                check(low.y(x) == i, "minus infinity is the least")
                same(high.y(x), v, "the greatest of a number and minus infinity")
        p = Points([(0, i), (1, i)])
        check(p.trailing_min(2).y(1) == i and p.trailing_max(2).y(1) == i, "nothing but infinity")


def c13_trailing_max():
    """C26"""
    p = regular(3)
    c = p.trailing_max(2)
    trailing_is(p, c, lambda x, ys: greatest(ys), 2, "the greatest of the last values")


def c13_trailing_period():
    """C14 C26"""
    p = Points([(0, 1), (1, num("a")), (4, num("b")), (6, 5)], uniform=False)
    lo = p.trailing_min(3, is_period=True, uniform=False)
    hi = p.trailing_max(3, is_period=True, uniform=False)
    a = num("a")
    b = num("b")
    same(lo.y(4), least([a, b]), "the least of a period")
    same(hi.y(4), greatest([a, b]), "the greatest of a period")
    same(lo.y(1), least([1, a]), "the least of a period")
    same(hi.y(1), greatest([1, a]), "the greatest of a period")
    same(lo.y(6), least([b, 5]), "the least of a period")
    same(hi.y(6), greatest([b, 5]), "the greatest of a period")


def c14_trailing_options():
    """C13"""
    p = Points([(0, 0), (1, 4), (2, 8), (3, 6)])
    for m, v, w in [(None, 2, 6), (LINEAR, 2, 6), (PREV, 0, 4), (NEXT, 4, 8)]:
        lo = p.trailing_min(2, interpolation=m)
        hi = p.trailing_max(2, interpolation=m)
        lo.y(3)
        hi.y(3)
        same(lo.y(1.5), v, "trailing_min: interpolation")
        same(hi.y(1.5), w, "trailing_max: interpolation")


def c14_trailing_step():
    """C13: the window of a trailing extreme passes over positions closer than the step"""
    p = Points([(0, 9), (1, 1), (2, 5), (3, 0), (4, 4), (5, 10), (6, 6)])
    for make, close, far in [
        (lambda **kw: p.trailing_min(2, **kw), 0, 4),
        (lambda **kw: p.trailing_max(2, **kw), 4, 5),
    ]:
        same(make().y(4), close, "a trailing extreme by the positions of its source")
        same(make(min_step=2).y(4), far, "a trailing extreme by positions two apart")
    same(p.accumulator_map(sum, 2, min_step=2).y(4), 9, "a window of positions two apart")
    same(p.accumulator_map(sum, 2).y(4), 4, "a window of neighbours")
    same(p.trailing_min(2, is_period=True, min_step=2).y(4), 4, "a period sampled two apart")
    same(p.trailing_min(2, is_period=True).y(4), 0, "a period sampled as it is")


def c14_min_step():
    """positions closer than the step are passed over"""
    p = Points([(0, 1), (1, num("y1")), (2, num("y2")), (3, num("y3")), (4, num("y4"))])

    def seen(**kw):
        l = []

        def f(x, ys):
            l.append(x)
            return 0
        c = p.accumulator_map(f, 2, **kw)
        c.y(4)
        return l
    check(seen() == [0, 1, 2, 3, 4], "every position by default")
    check(seen(min_step=1.5) == [0, 2, 4], "accumulator_map: the step reaches the scan")

    def seen2(**kw):
        l = []

        def f(x, y, last):
            l.append(x)
            return 0
        Accumulator(p, f, **kw).y(4)
        return l
    check(seen2(min_step=1.5) == [0, 2, 4], "Accumulator: the step reaches the scan")
    same(p.ema(0.5, min_step=1.5).y(4), EMA(p, 0.5, is_period=False, min_step=1.5).y(4), "ema: the step")
    same(p.ema(0.5, min_step=1.5).y(2), (1 + num("y2")) / 2, "ema: the step")
    same(p.trailing_max(1, min_step=1.5).y(3), (num("y2") + num("y4")) / 2, "trailing_max: the step")


# ------------------------------------------------------------------------- sma


def sma_at(ps, i, n):
    if n == 1:
        return ps[i][1]
    total = 0
    for j in range(i - n + 1, i):
        total = total + area(ps[j], ps[j + 1], LINEAR)
    return total / (ps[i][0] - ps[i - n + 1][0])


def c13_sma_degree():
    """C14"""
    p = regular(5)
    ps = p.sample_points()
    for n in [1, 2, 3, 5]:
        for c in [p.sma(n), SMA(p, n, is_period=False), p.sma(n, is_period=False)]:
            for i in range(5):
                same(c.y(i), sma_at(ps, i, n) if i >= n - 1 else None, "the mean of the curve over the last positions")


def c13_sma_degree_irregular():
    p = irregular()
    ps = p.sample_points()
    for n in [1, 2, 3, 4]:
        c = p.sma(n, uniform=False)
        for i in range(4):
            same(c.y(ps[i][0]), sma_at(ps, i, n) if i >= n - 1 else None, "the mean over the last irregular positions")


def c13_sma_unknown_positions():
    a, b, c = three()
    p = Points([(a, num("ya")), (b, num("yb")), (c, num("yc"))], uniform=False)
    s = p.sma(2, uniform=False)
    same(s.y(a), None, "no mean before two positions")
    same(s.y(b), (num("ya") + num("yb")) / 2, "the mean over two positions")
    same(s.y(c), (num("yb") + num("yc")) / 2, "the mean over two positions")


def c13_sma_period():
    """C14"""
    p = regular(5)
    ps = p.sample_points()
    for n in [2, 3, 4]:
        for c in [p.sma(n, is_period=True), SMA(p, n)]:
            for i in range(5):
                same(c.y(i), sma_at(ps, i, n) if i >= n - 1 else None, "the mean over a period")


def c13_sma_spacing():
    """the spacing of the source does not matter to a degree"""
    h = num("h")
    assume(h > 1)
    p = Points([(i * h, num("y%d" % i)) for i in range(4)], uniform=False)
    s = p.sma(3, uniform=False)
    same(s.y(2 * h), (num("y0") + 2 * num("y1") + num("y2")) / 4, "the mean of three positions")
    same(s.y(3 * h), (num("y1") + 2 * num("y2") + num("y3")) / 4, "the mean of three positions")


def c13_sma_between():
    """between two positions the averages are interpolated"""
    p = regular(5)
    ps = p.sample_points()
    c = p.sma(3)
    a = c.y(3)
    b = c.y(4)
    same(c.y(3.5), (a + b) / 2, "between two averages")
    same(c.y(3.25), 0.75 * a + 0.25 * b, "between two averages")


def c13_sma_backwards():
    """C08"""
    p = regular(5)
    ps = p.sample_points()
    c = p.sma(2)
    for i in [4, 2, 1, 3, 0]:
        same(c.y(i), sma_at(ps, i, 2) if i >= 1 else None, "asked in any order")


def c13_sma_domain():
    """C07 C28"""
    p = regular(5)
    for n in [1, 2, 3, 5]:
        check(p.sma(n).domain == Interval.closed(n - 1, 4), "defined from the first position with its data")
    check(p.sma(6).domain.is_empty, "too few positions: no average")
    same(p.sma(6).y(4), None, "too few positions: no average")
    check(p.sma(3, is_period=True).domain == Interval.closed(2, 4), "defined from the first position with its data")


def c13_sma_refuses():
    p = regular(3)
    fails(lambda: SMA(p, 0), "a period of zero")
    fails(lambda: SMA(p, None), "no period")
    fails(lambda: SMA(p, 0, is_period=False), "a degree of zero")
    fails(lambda: p.sma(-1), "a negative degree")


def c13_sma_gap():
    """C10: a window with a missing value has no or a partial average, never an error"""
    p = Points([(0, None), (1, num("y1")), (2, num("y2")), (3, num("y3"))])
    c = p.sma(2)
    same(c.y(2), (num("y1") + num("y2")) / 2, "after the missing value")
    same(c.y(3), (num("y2") + num("y3")) / 2, "after the missing value")
    same(c.y(1), None, "no average over a missing value")


# --------------------------------------------------------------- compositions


def c13_rsi():
    """C26"""
    p = regular(4)
    y = [num("y%d" % i) for i in range(4)]
    n = 3
    c = p.rsi(n)
    u = 0
    d = 0
    for i in range(4):
        if i > 0:
            m = y[i] - y[i - 1]
            up = m if m > 0 else 0
            dn = -m if m < 0 else 0
            u = u + (up - u) / n
            d = d + (dn - d) / n
        if d == 0:
            same(c.y(i), 100, "rsi without losses")
        else:
            same(c.y(i), 100 - 100 / (1 + u / d), "rsi")


def c13_rsi_simple():
    y = num("y")
    assume(y > 1)
    p = Points([(0, 0), (1, y), (2, y - 1)])
    c = p.rsi(2)
    u1 = y / 2
    d1 = 0
    u2 = u1 / 2
    d2 = 0.5
    same(c.y(1), 100, "only gains")
    same(c.y(2), 100 - 100 / (1 + u2 / d2), "rsi")
    check(c.name == "rsi(2)", "named")


def c13_rsi_irregular():
    """C14"""
    p = Points([(0, 0), (1, 4), (3, 2)], uniform=False)
    c = p.rsi(2, uniform=False)
    same(c.y(3), 100 - 100 / (1 + 1 / 0.5), "rsi")


def c13_differential():
    p = regular(4)
    y = [num("y%d" % i) for i in range(4)]
    d = p.differential()
    f = p.differential(forward=True)
    for i in range(4):
        same(d.y(i), y[i] - y[i - 1] if i > 0 else None, "the slope from the previous position")
        same(f.y(i), y[i + 1] - y[i] if i < 3 else None, "the slope to the next position")
    q = irregular()
    same(q.differential().y(4), (num("y2") - num("y1")) / 3, "the slope, irregular")
    same(q.differential(forward=True).y(4), (num("y3") - num("y2")) / 2, "the slope, irregular")


def family(f, base, n, stride):
    return f(base, n, stride=stride)


def degrees(base, n, stride):
    """the golden ratio is between 1.618 and 1.6181"""
    ds = []
    for i in range(n):
        g = 1
        for _ in range(i * (stride + 1)):
            g = g * 1.618033988749895
        ds.append(base * math.floor(g + 0.5))
    return ds


def c13_harmonic():
    """C14"""
    p = Src("a", Interval.closed(0, 100))
    for base, n, stride in [(1, 4, 1), (2, 3, 1), (3, 3, 2), (2, 3, 0), (3, 10, 0), (1, 8, 1)]:
        ds = degrees(base, n, stride)
        smas = p.harmonic_smas(base, n, stride=stride)
        check([s.degree for s in smas] == ds, "degrees in proportion to the golden ratio")
        check([s.period for s in smas] == [None] * n, "degrees, not periods")
        smas = p.harmonic_smas(base, n, stride=stride, is_period=True)
        check([s.period for s in smas] == ds, "periods in proportion to the golden ratio")
        check(all([s.curve == p for s in smas]), "of the curve itself")
    check([s.degree for s in p.harmonic_smas(1, 3)] == degrees(1, 3, 1), "every second one by default")


def c13_centered():
    """C14"""
    p = Src("a", Interval.closed(0, 100))
    for base, n, stride in [(1, 4, 1), (2, 3, 1), (3, 3, 2), (2, 3, 0), (3, 10, 0), (1, 8, 1)]:
        ds = list(reversed(degrees(base, n, stride)))
        check([s.degree for s in p.centered_macs(base, n, stride=stride)] == ds, "degrees from large to small")
        check([s.period for s in p.centered_macs(base, n, stride=stride, is_period=True)] == ds, "periods from large to small")
    check([s.degree for s in p.centered_macs(1, 3)] == list(reversed(degrees(1, 3, 1))), "every second one by default")


# -------------------------------------------------------------------- options


def c14_map_options():
    s = Src("a")
    m = s.map(lambda y: 2 if y is None else y, name="m")
    check(m.name == "m", "map: name")
    p = Points([(0, None), (1, 1)])
    f = lambda y: 5
    same(p.map(f).y(0), 5, "map: missing values are passed on by default")
    same(p.map(f, skip_none=True).y(0), None, "map: skip_none")
    same(s.map(f, min_step=3).min_step, 3, "map: min_step")
    t = Src("b", None, 4)
    same(t.map(f, min_step=3).min_step, 4, "map: the greater step")
    same(t.map(f, min_step=5).min_step, 5, "map: the greater step")


def c14_accumulator_map_options():
    p = irregular()
    f = lambda ys: ys[0]
    c = p.accumulator_map(f, 2, interpolation=PREV, uniform=False)
    c.y(6)
    same(c.y(2), num("y1"), "accumulator_map: interpolation")
    same(p.accumulator_map(f, 2, uniform=False).y(6), num("y3"), "accumulator_map: uniform")
    same(p.accumulator_map(f, 2, min_step=2).min_step, 2, "accumulator_map: min_step")
    check(p.accumulator_map(f, 2, is_period=True).period == 2, "accumulator_map: is_period")
    check(p.accumulator_map(f, 2).degree == 2, "accumulator_map: degree by default")


def c14_average_options():
    p = irregular()
    for c in [p.sma(2, uniform=False, min_step=0.5), SMA(p, 2, is_period=False, uniform=False, min_step=0.5)]:
        same(c.min_step, 0.5, "sma: min_step")
        same(c.y(6), (num("y2") + num("y3")) / 2, "sma: uniform")
    for c in [p.ema(0.5, uniform=False, min_step=0.25), EMA(p, 0.5, is_period=False, uniform=False, min_step=0.25)]:
        same(c.min_step, 0.25, "ema: min_step")
    c = p.smma(2, uniform=False, min_step=0.25)
    same(c.min_step, 0.25, "smma: min_step")
    same(c.y(1), (num("y0") + num("y1")) / 2, "smma: uniform reaches its initial average")
    q = Points([(0, num("q0")), (1, num("q1")), (2, num("q2")), (3, num("q3")), (4, num("q4"))])
    c = q.smma(2, min_step=2)
    same(c.y(2), (num("q0") + num("q2")) / 2, "smma: min_step reaches its initial average")
    check(p.sma(2, is_period=True).period == 2, "sma: is_period")
    check(p.sma(2).degree == 2, "sma: degree by default")
    check(p.ema(2, is_period=True).period == 2, "ema: is_period")
    check(p.ema(0.25).alpha == 0.25, "ema: weight by default")
    fails(lambda: p.integral().y(6), "integral: uniform by default")
    fails(lambda: p.sma(2).y(6), "sma: uniform by default")
    fails(lambda: p.ema(0.5).y(6), "ema: uniform by default")


# --------------------------------------------------- steps wider than the points are apart
def c26_wide_steps():
    """C09 C14"""
    p = regular(7)
    ys = [p.y(i) for i in range(7)]
    w = num("w")
    assume(w > 0)
    for c in [p.ema(w, is_period=True, min_step=2), EMA(p, w, min_step=2)]:
        v = ys[0]
        same(c.y(0), v, "begins with the first value")
        for i in [2, 4, 6]:
            v = v + (ys[i] - v) * (2 / w)
            same(c.y(i), v, "the weight of a period is the step taken by the period")
        same(c.y(3), (c.y(2) + c.y(4)) / 2, "interpolated between the positions visited")
    c = p.ema(w, min_step=2)
    same(c.y(4), (ys[0] + (ys[2] - ys[0]) * w) + (ys[4] - (ys[0] + (ys[2] - ys[0]) * w)) * w, "a weight of its own")


def c26_wide_steps_map():
    """C09 C14"""
    p = regular(7)
    ys = [p.y(i) for i in range(7)]
    f = fn("f", 3)
    c = p.accumulator_map(lambda x, vs: f(x, vs[0], vs[-1]), 2, min_step=2)
    for i in [2, 4, 6]:
        same(c.y(i), f(i, ys[i], ys[i - 2]), "the values of the last positions a step apart")
    c = p.accumulator_map(lambda x, vs: f(len(vs), vs[0], vs[-1]), 5, is_period=True, min_step=2)
    seen = []
    a = Accumulator(p, lambda x, y, r: seen.append((x, y, r)), min_step=3)
    a.y(6)
    check([s[0] for s in seen] == [0, 3, 6], "an accumulation visits positions a step apart")
    for s in seen:
        same(s[1], ys[s[0]], "with the values there")


def c26_wide_steps_integral():
    """C14"""
    p = regular(7)
    ys = [p.y(i) for i in range(7)]
    c = Integral(p, min_step=2)
    v = 0
    for i in [2, 4, 6]:
        v = v + (ys[i] + ys[i - 2])
        same(c.y(i), v, "areas between the positions visited")
    c = Integral(p, interpolation=-1, min_step=3)
    same(c.y(6), 3 * ys[0] + 3 * ys[3], "areas of previous values")
