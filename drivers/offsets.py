"""C15: displaced curves."""
from _driver_common import Src, watch
from curvepy import Curve, Constant, Points, Line, Offset
from intervalpy import Interval
import math

HOUR = 3600


def c15_value():
    """C10"""
    s = Src("s")
    d, x = num("d"), num("x")
    for o in [s.offset(d), Offset(s, d)]:
        same(o.y(x), s.y(x - d), "the value of the source before the displacement")
        same(o(x), s.y(x - d), "the value of the source before the displacement, called")


def c15_value_in_domain():
    """C28"""
    a, b = num("a"), num("b")
    assume(a <= b)
    s = Src("s", Interval.closed(a, b))
    d, x = num("d"), num("x")
    o = s.offset(d)
    if x >= a + d and x <= b + d:
        same(o.y(x), s.y(x - d), "the value inside the displaced domain")
    else:
        check(o.y(x) is None, "no value outside the displaced domain")


def c15_value_in_open_domain():
    """C28"""
    a, b = num("a"), num("b")
    assume(a < b)
    s = Src("s", Interval(a, b, start_open=True, end_open=True))
    d, x = num("d"), num("x")
    o = s.offset(d)
    if x > a + d and x < b + d:
        same(o.y(x), s.y(x - d), "the value inside the displaced open domain")
    else:
        check(o.y(x) is None, "no value outside the displaced open domain")


def c15_zero():
    """C10"""
    s = Src("s")
    x = num("x")
    same(s.offset(0).y(x), s.y(x), "displaced by nothing")


def c15_domain():
    a, b, d = num("a"), num("b"), num("d")
    assume(a < b)
    check(Src("s", Interval.closed(a, b)).offset(d).domain == Interval.closed(a + d, b + d), "a closed domain displaced")
    check(Src("s", Interval.open(a, b)).offset(d).domain == Interval.open(a + d, b + d), "an open domain displaced")
    check(Src("s", Interval.closed_open(a, b)).offset(d).domain == Interval.closed_open(a + d, b + d), "a half-open domain displaced")
    check(Src("s", Interval.open_closed(a, b)).offset(d).domain == Interval.open_closed(a + d, b + d), "the other half-open domain displaced")
    check(Src("s").offset(d).domain == Interval.infinite(), "an infinite domain stays infinite")
    check(Src("s", Interval(a, math.inf)).offset(d).domain == Interval(a + d, math.inf), "a domain without end displaced")
    check(Src("s", Interval(-math.inf, b)).offset(d).domain == Interval(-math.inf, b + d), "a domain without start displaced")


def c15_empty():
    """C10 C28"""
    o = Points([]).offset(num("d"))
    check(o.domain.is_empty, "an empty source displaced is empty")
    check(o.y(num("x")) is None, "an empty source displaced has no value")


def c15_derivative():
    """C10"""
    s = Points([(0, num("u")), (2, num("v")), (4, num("w"))])
    d = num("d")
    o = s.offset(d)
    same(o.d_y(2 + d), s.d_y(2), "the derivative of the source")
    same(o.d_y(2 + d, forward=True), s.d_y(2, forward=True), "the forward derivative of the source")
    same(o.d_y(2 + d, forward=True, min_step=2), s.d_y(2, forward=True, min_step=2), "the derivative with a step")


def c15_derivative_of_line():
    o = Line(const=num("c"), slope=num("m")).offset(num("d"))
    x = num("x")
    same(o.d_y(x), num("m"), "the slope of a line displaced")
    same(o.y(x), num("c") + num("m") * (x - num("d")), "a line displaced")


def shifted(v, d):
    if v is None:
        return None
    return v + d


def c15_steps():
    """C28"""
    s = Src("s")
    d, x, h, lim = num("d"), num("x"), pos("h"), num("lim")
    o = s.offset(d)
    same(o.x_next(x), shifted(s.x_next(x - d), d), "the next position displaced")
    same(o.x_previous(x), shifted(s.x_previous(x - d), d), "the previous position displaced")
    same(o.x_next(x, min_step=h), shifted(s.x_next(x - d, min_step=h), d), "the next position with a step")
    same(o.x_previous(x, min_step=h), shifted(s.x_previous(x - d, min_step=h), d), "the previous position with a step")
    same(o.x_next(x, min_step=h, limit=lim), shifted(s.x_next(x - d, min_step=h, limit=lim - d), d), "the next position with a limit")
    same(o.x_previous(x, min_step=h, limit=lim), shifted(s.x_previous(x - d, min_step=h, limit=lim - d), d), "the previous position with a limit")


def c15_steps_in_domain():
    """C28"""
    a, b = num("a"), num("b")
    assume(a <= b)
    s = Points([(a, num("u")), (a + 1, num("v")), (a + 2, num("w"))])
    d = num("d")
    o = s.offset(d)
    for i in [0, 1]:
        same(o.x_next(a + i + d, min_step=1), a + i + 1 + d, "the next displaced point")
        same(o.x_previous(a + i + 1 + d, min_step=1), a + i + d, "the previous displaced point")
    check(o.x_next(a + 2 + d, min_step=1) is None, "no point after the last displaced")
    check(o.x_previous(a + d, min_step=1) is None, "no point before the first displaced")


def c15_samples():
    """C23"""
    a, d = num("a"), num("d")
    s = Points([(a, num("u")), (a + 1, num("v")), (a + 2, num("w"))])
    o = s.offset(d)
    same(o.sample_points(min_step=1), [(a + d, num("u")), (a + 1 + d, num("v")), (a + 2 + d, num("w"))], "samples displaced")


def c15_twice():
    s = Src("s")
    d, e, x = num("d"), num("e"), num("x")
    same(s.offset(d).offset(e).y(x), s.y(x - e - d), "displaced twice")
    same(s.offset(d).offset(0 - d).y(x), s.y(x), "displaced and back")


def c15_after_change():
    """C08 C05"""
    p = Points([(0, num("u")), (1, num("v"))])
    d = num("d")
    o = p.offset(d)
    o.y(d)
    check(o.domain == Interval.closed(d, 1 + d), "the domain before")
    p.append((2, num("w")))
    check(o.domain == Interval.closed(d, 2 + d), "the domain follows the source")
    same(o.y(2 + d), num("w"), "the appended value displaced")


def c15_announced():
    """C03"""
    s = Src("s")
    d, a, b = num("d"), num("a"), num("b")
    assume(a < b)
    for iv in [0, 1, 2, 3]:
        where = [Interval.closed(a, b), Interval.open(a, b), Interval.open_closed(a, b), Interval.closed_open(a, b)][iv]
        expect = [Interval.closed(a + d, b + d), Interval.open(a + d, b + d), Interval.open_closed(a + d, b + d), Interval.closed_open(a + d, b + d)][iv]
        o = s.offset(d)
        seen = []
        o.add_observer(begin=seen.append, end=seen.append)
        s.change(where)
        check(len(seen) == 2, "a change of the source is announced and reported")
        if len(seen) == 2:
            check(seen[0] == expect, "announced displaced")
            check(seen[1] == expect, "reported displaced")


def hourly(n=4):
    ps = []
    for i in range(n):
        ps.append((i * HOUR, num("v%d" % i)))
    return Points(ps), ps


def c15_duration_on_steps():
    """C13"""
    p, ps = hourly()
    for n in [1, 2, -1, 0]:
        o = p.offset(n, duration="1h")
        for i in range(4):
            same(o.y((i + n) * HOUR), ps[i][1], "whole durations displace whole steps")


def c15_duration_between():
    """C13"""
    p, ps = hourly()
    x = num("x")
    assume(x >= 0 and x <= 4 * HOUR)
    o = p.offset(1, duration="1h")
    for i in [1, 2, 3]:
        if x >= i * HOUR and x < (i + 1) * HOUR and x <= 3 * HOUR:
            u = (x - i * HOUR) / HOUR
            same(o.y(x), ps[i - 1][1] * (1 - u) + ps[i][1] * u, "linear between displaced steps")


def c15_duration_back():
    p, ps = hourly()
    x = num("x")
    assume(x >= 0 and x < 2 * HOUR)
    o = p.offset(-1, duration="1h")
    for i in [0, 1]:
        if x >= i * HOUR and x < (i + 1) * HOUR:
            u = (x - i * HOUR) / HOUR
            same(o.y(x), ps[i + 1][1] * (1 - u) + ps[i + 2][1] * u, "linear between steps displaced back")


def c15_duration_of_unknown_curve():
    """the two steps around a position"""
    s = Src("s")
    x = num("x")
    assume(x > 0 and x < HOUR)
    o = s.offset(2, duration="1h")
    u, v = s.y(-2 * HOUR), s.y(-HOUR)
    y = o.y(x)
    if u is None or v is None:
        check(y is None, "missing where one of the steps around is missing")
    else:
        same(y, u * (1 - x / HOUR) + v * (x / HOUR), "linear between the steps around")


def c15_duration_zero():
    """C28 C07: no steps at all leave the curve as it is"""
    p = Points([(HOUR // 2 + i * HOUR // 2, num("y%d" % i)) for i in range(6)])
    c = p.offset(0, duration="1h")
    check(c.domain == p.domain, "the domain of the source")
    for x in [HOUR // 2, HOUR // 2 + 100, HOUR, HOUR + 77, 2 * HOUR, 3 * HOUR - 900, 3 * HOUR]:
        same(c.y(x), p.y(x), "displaced by nothing")
    for x in [0, HOUR // 2 - 1, 3 * HOUR + 1]:
        check(c.y(x) is None, "nothing outside the source")


def c15_duration_outside():
    """C28"""
    p, ps = hourly()
    o = p.offset(1, duration="1h")
    x = num("x")
    if x < HOUR:
        check(o.y(x) is None, "no value before the displaced start")
    if x > 4 * HOUR:
        check(o.y(x) is None, "no value after the displaced end")


def c15_duration_steps():
    """C28"""
    p, ps = hourly()
    o = p.offset(1, duration="1h")
    same(o.x_next(HOUR), 2 * HOUR, "the next displaced step")
    same(o.x_previous(3 * HOUR), 2 * HOUR, "the previous displaced step")
    check(o.x_next(4 * HOUR) is None, "no displaced step after the last")
    check(o.x_previous(HOUR) is None, "no displaced step before the first")
    x = num("x")
    assume(x > HOUR and x < 2 * HOUR)
    same(o.x_next(x), 2 * HOUR, "the next displaced step from between")
    same(o.x_previous(x), HOUR, "the previous displaced step from between")


def c15_duration_domain():
    """C07"""
    p, ps = hourly()
    for n in [1, 3, -2]:
        o = p.offset(n, duration="1h")
        check(o.domain == Interval.closed(n * HOUR, (3 + n) * HOUR), "the domain displaced by whole durations")
    o = p.offset(1, duration="1h")
    p.append((4 * HOUR, num("w")))
    check(o.domain == Interval.closed(HOUR, 5 * HOUR), "the displaced domain follows the source")
    same(o.y(5 * HOUR), num("w"), "the appended value displaced by a duration")


def c15_duration_days():
    day = 24 * HOUR
    p = Points([(0, num("u")), (day, num("v")), (2 * day, num("w"))])
    o = p.offset(1, duration="1d")
    same(o.y(2 * day), num("v"), "displaced by a day")
    same(o.y(1.5 * day), num("u") * 0.5 + num("v") * 0.5, "half way between displaced days")


def c15_duration_needs_integer():
    """C02"""
    failed = False
    try:
        Src("s").offset(1.5, duration="1h")
    except Exception:
        failed = True
    check(failed, "a fraction of a duration is refused")


def c15_duration_announced():
    """C03 C05"""
    p, ps = hourly()
    o = p.offset(2, duration="1h")
    seen = []
    o.add_observer(begin=lambda i: seen.append(i), end=lambda i: seen.append(i))
    p.append((4 * HOUR, num("w")))
    check(len(seen) == 2, "an append is announced and reported by the displaced curve")
    if len(seen) == 2:
        check(seen[0].is_superset_of(Interval(5 * HOUR, 6 * HOUR, start_open=True, end_open=False)), "announced displaced by the duration")
        check(seen[1] == seen[0], "reported displaced by the duration")


def half_hourly(n=6):
    return Points([(i * HOUR / 2, num("v%d" % i)) for i in range(n)])


def stepped_change(p, n, x, change):
    """every position whose value changes lies inside what is announced and
    reported; outside the domain there is no value, inside it there is one"""
    o = p.offset(n, duration="1h")
    said = []
    told = []
    o.add_observer(begin=lambda i: said.append(i), end=lambda i: told.append(i))
    old = o.y(x)
    change()
    new = o.y(x)
    if not alike(old, new):
        check(any([i.contains(x) for i in said]), "a changed position is announced")
        check(any([i.contains(x) for i in told]), "a changed position is reported")
    check((new is not None) == o.domain.contains(x), "a value wherever the displaced domain is, and nowhere else")


def alike(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


def c15_duration_finer_append():
    """C03 C07 C28"""
    p = half_hourly(5)
    x = num("x")
    assume(x >= 0 and x < 5 * HOUR)
    stepped_change(p, 1, x, lambda: p.append((5 * HOUR / 2, num("w"))))


def c15_duration_finer_append_step():
    """C03 C07 C28"""
    p = half_hourly(6)
    x = num("x")
    assume(x >= 0 and x < 5 * HOUR)
    stepped_change(p, 1, x, lambda: p.append((3 * HOUR, num("w"))))


def c15_duration_finer_replace():
    """C03 C07 C28"""
    p = half_hourly(5)
    x = num("x")
    assume(x >= -1 * HOUR and x < 3 * HOUR)
    stepped_change(p, -1, x, lambda: p.replace((HOUR, num("w"))))


def c15_duration_finer_replace_last():
    """C03 C07 C28"""
    p = half_hourly(6)
    x = num("x")
    assume(x >= 0 and x < 5 * HOUR)
    stepped_change(p, 1, x, lambda: p.replace((5 * HOUR / 2, num("w"))))


def c15_duration_finer_reset():
    """C03 C07 C28"""
    p = half_hourly(6)
    x = num("x")
    assume(x >= 0 and x < 5 * HOUR)
    stepped_change(p, 2, x, lambda: p.reset(Interval.gte(HOUR)))


def c15_duration_finer_set():
    """C03 C07 C28"""
    p = half_hourly(4)
    x = num("x")
    assume(x >= 0 and x < 5 * HOUR)
    stepped_change(p, 1, x, lambda: p.set([(HOUR / 2, num("w")), (HOUR, num("u")), (HOUR * 3 / 2, num("t"))]))


def c15_duration_step_replaced():
    """C03: a change at a step reaches to the steps around it"""
    s = Src("s", Interval.closed(0, 4 * HOUR))
    o = s.offset(1, duration="1h")
    seen = []
    o.add_observer(begin=lambda i: seen.append(i), end=lambda i: seen.append(i))
    s.change(Interval.closed(2 * HOUR, 2 * HOUR))
    check(len(seen) == 2 and all([i.is_superset_of(Interval.open(2 * HOUR, 4 * HOUR)) for i in seen]), "a change at a step is announced up to the steps around it")
    s.change(Interval.closed(2.25 * HOUR, 2.5 * HOUR))
    s.change(Interval.open(2.5 * HOUR, 3 * HOUR))
    s.change(Interval.open_closed(2.5 * HOUR, 3 * HOUR))
    check(seen[-1].is_superset_of(Interval.open(3 * HOUR, 5 * HOUR)), "a change up to a step is announced up to the step after it")


def c15_duration_open_domain():
    """C07 C28"""
    x = num("x")
    assume(x >= 0 and x <= 6 * HOUR)
    for dom, expect in [
        (Interval.open(0, 3 * HOUR), Interval.closed(2 * HOUR, 3 * HOUR)),
        (Interval.closed(HOUR / 2, 3.5 * HOUR), Interval.closed(2 * HOUR, 4 * HOUR)),
        (Interval.open(HOUR / 2, 2 * HOUR), Interval.closed(2 * HOUR, 2 * HOUR)),
        (Interval.closed(HOUR / 4, HOUR / 2), Interval.empty()),
        (Interval(HOUR, math.inf), Interval(2 * HOUR, math.inf)),
    ]:
        s = Src("s", dom)
        o = s.offset(1, duration="1h")
        check(o.domain == expect, "whole steps of the source, displaced")
        if not o.domain.contains(x):
            check(o.y(x) is None, "no value outside the displaced steps")
