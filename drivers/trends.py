"""C29: trend lines (and their part of C05-C08, C14, C19)."""
from curvepy import Curve, Points, Trend
from curvepy.trend import (TrendLine, _is_strictly_convex_points, _is_coincident_points, _is_point_on_line, _is_value_within_tolerance,
                           _line_y, _line_x, _line_intersection, _insort_point_left, _insort_points_left, _average_point_of_2)
from intervalpy import Interval
import copy


# ------------------------------------------------------------- which lines are reported
def spaced(points, n, d):
    """n of the points at least d from the one before"""
    k = 1
    for i in range(1, len(points)):
        if points[i][0] - points[i - 1][0] >= d:
            k += 1
    return k >= n


def line_of(points, min_width, min_points, distance, upper=True):
    l = TrendLine(min_width, is_upper_trend=upper, min_points=min_points, min_point_distance=distance, search_length_rel=10, search_length_int_rel=2, y_tol_abs=0)
    l.trend_points = points
    if len(points) >= 2:
        l._line = [points[0], points[-1]]
    return l


def c29_valid_three():
    a = num("a")
    g = pos("g")
    h = pos("h")
    w = num("w")
    d = num("d")
    ps = [(a, num("y0")), (a + g, num("y1")), (a + g + h, num("y2"))]
    l = line_of(ps, w, 3, d)
    check(l.is_valid == (g + h >= w and g >= d and h >= d), "three points make a line when they span the width and keep the distance")
    same(l.width, g + h, "as wide as from the first to the last point")


def c29_valid_two():
    a = num("a")
    g = pos("g")
    w = num("w")
    d = num("d")
    ps = [(a, num("y0")), (a + g, num("y1"))]
    check(line_of(ps, w, 2, d).is_valid == (g >= w and g >= d), "two points make a line when they span the width and keep the distance")
    check(not line_of(ps, w, 3, d).is_valid, "no line of two points when three are asked for")
    check(not line_of([], w, 2, d).is_valid, "no line of no points")
    check(not line_of([(a, num("y0"))], w, 2, d).is_valid, "no line of a single point")


def c29_valid_four():
    g = pos("g")
    h = pos("h")
    k = pos("k")
    d = num("d")
    ps = [(0, num("y0")), (g, num("y1")), (g + h, num("y2")), (g + h + k, num("y3"))]
    l = line_of(ps, 0, 3, d)
    n = 1
    for s in [g, h, k]:
        if s >= d:
            n += 1
    check(l.is_valid == (n >= 3), "as many points at the distance as asked for make a line")


def c29_states():
    l = TrendLine(1, min_points=2)
    check(l.is_empty and not l.is_ready and not l.is_valid and l.is_upper_trend and not l.is_lower_trend, "a line without points")
    same(l.width, 0, "a line without points has no width")
    check(len(l) == 0 and list(l) == [] and l.line_extended() is None, "a line without points")
    l = line_of([(0, num("y0")), (2, num("y1"))], 1, 2, 0, upper=False)
    check(not l.is_empty and l.is_ready and not l.is_upper_trend and l.is_lower_trend and len(l) == 2, "a line of two points")
    same(l[0][1], num("y0"), "the ends of a line")
    same(l[1][1], num("y1"), "the ends of a line")


# ------------------------------------------------------------- tolerances
def less(a, b):
    return a if a < b else b


def magnitude(y):
    return y if y >= 0 else -y


def tolerance(y, rel, ab):
    """the absolute or relative amount, whichever is less"""
    t = None
    if ab is not None:
        t = ab
    if rel is not None:
        r = magnitude(y) * rel
        t = r if t is None else less(t, r)
    return 0 if t is None else t


def widened(rel, ab):
    y = num("y")
    assume(y > 1 or y < -1)
    l = TrendLine(1, y_tol_rel=rel, y_tol_abs=ab)
    t = tolerance(y, rel, ab)
    same(l._value_tolerance_max(y), y + t, "a tolerance widens a line above")
    same(l._value_tolerance_min(y), y - t, "a tolerance widens a line below")


def c29_tolerance_rel():
    widened(0.25, None)


def c29_tolerance_abs():
    widened(None, nonneg("t"))


def c29_tolerance_both():
    widened(0.25, nonneg("t"))


def c29_tolerance_none():
    widened(None, None)


def c29_tolerance_zero():
    """C10"""
    l = TrendLine(1, y_tol_rel=0.25)
    same(l._value_tolerance_max(0), 0, "nothing relative to zero")
    same(l._value_tolerance_min(0), 0, "nothing relative to zero")
    widened(0, None)
    widened(None, 0)
    widened(0, nonneg("t"))
    widened(0.5, 0)
    l = TrendLine(1, y_tol_abs=nonneg("t"))
    same(l._value_tolerance_max(0), nonneg("t"), "a tolerance widens a line at zero")
    same(l._value_tolerance_min(0), -nonneg("t"), "a tolerance widens a line at zero")


def within(rel, ab):
    y = num("y")
    r = num("r")
    assume(r > 1 or r < -1)
    d = magnitude(y - r)
    ok = (ab is None or d <= ab) and (rel is None or d <= magnitude(r) * rel)
    check(_is_value_within_tolerance(y, r, y_tol_rel=rel, y_tol_abs=ab) == ok, "a value is on a line when no further than every tolerance")


def c29_within_rel():
    within(0.25, None)


def c29_within_abs():
    within(None, nonneg("t"))


def c29_within_both():
    within(0.25, nonneg("t"))


def c29_within_missing():
    """C10"""
    check(not _is_value_within_tolerance(None, num("r"), y_tol_abs=1), "no value is on no line")
    check(not _is_value_within_tolerance(num("r"), None, y_tol_abs=1), "no value is on no line")
    check(_is_value_within_tolerance(0, 0, y_tol_abs=0), "zero is a value")
    check(_is_value_within_tolerance(0, 0, y_tol_rel=0.25), "zero is a value")


def c29_on_line():
    a = (num("xa"), num("ya"))
    g = pos("g")
    b = (num("xa") + g, num("yb"))
    t = nonneg("t")
    x = num("x")
    y = num("y")
    at = num("ya") + (num("yb") - num("ya")) * (x - num("xa")) / g
    check(_is_point_on_line((a, b), (x, at), y_tol_abs=t), "a point of a line is on it")
    check(_is_point_on_line((a, b), (x, at + t), y_tol_abs=t), "a point within the tolerance is on the line")
    check(_is_point_on_line((a, b), (x, at - t), y_tol_abs=t), "a point within the tolerance is on the line")
    d = pos("d")
    check(not _is_point_on_line((a, b), (x, at + t + d), y_tol_abs=t), "a point beyond the tolerance is not on the line")
    check(not _is_point_on_line((a, b), (x, at - t - d), y_tol_abs=t), "a point beyond the tolerance is not on the line")


def c29_convex():
    """a low point between two others, and a high one"""
    y0 = num("y0")
    y2 = num("y2")
    t = nonneg("t")
    d = pos("d")
    at = (y0 + y2) / 2
    a = (0, y0)
    b = (4, y2)
    check(_is_strictly_convex_points([a, (2, at - t - d), b], y_tol_abs=t), "a point below the line of its neighbours is convex")
    check(not _is_strictly_convex_points([a, (2, at + d), b], y_tol_abs=t), "a point above the line of its neighbours is not")
    check(_is_coincident_points([a, (2, at + t), b], y_tol_abs=t) and _is_coincident_points([a, (2, at - t), b], y_tol_abs=t), "a point within the tolerance coincides")
    check(not _is_coincident_points([a, (2, at - t - d), b], y_tol_abs=t), "a point beyond the tolerance does not coincide")
    check(not _is_coincident_points([a, (2, at + t + d), b], y_tol_abs=t), "a point beyond the tolerance does not coincide")


# ------------------------------------------------------------- lines formed point by point
def grown(points, upper, min_points, tol=0, width=1, distance=0, rel=10):
    l = TrendLine(width, is_upper_trend=upper, min_points=min_points, min_point_distance=distance, search_length_rel=rel, search_length_int_rel=2, y_tol_abs=tol)
    seen = []
    for p in points:
        seen.append(p)
        l.did_append_point(p, seen)
    return l


def between(a, b, x):
    return a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])


def bounds(l, ps, upper, what):
    """the line touches its points, and none of the points under (over) which it goes lies beyond it"""
    for q in l.trend_points:
        check(q in ps, what + ": a line is made of points of the source")
    for i in range(1, len(l.trend_points)):
        check(l.trend_points[i - 1][0] < l.trend_points[i][0], what + ": the points of a line ascend")
    if not l.is_ready:
        return
    a, b = l._line
    for p in ps:
        if a[0] <= p[0] <= b[0]:
            e = p[1] - between(a, b, p[0])
            if upper:
                check(e <= 0, what + ": an upper line is formed from highs")
            else:
                check(e >= 0, what + ": a lower line is formed from lows")


def of_three(upper, min_points):
    ps = [(0, num("y0")), (1, num("y1")), (3, num("y2"))]
    l = grown(ps, upper, min_points)
    bounds(l, ps, upper, "of three points")
    e = num("y1") - (num("y0") * 2 + num("y2")) / 3
    if min_points == 3:
        check(l.is_valid == (e == 0), "three points on a line make a line, and no others")


def c29_three_upper():
    of_three(True, 3)


def c29_three_lower():
    of_three(False, 3)


def c29_two_of_three_upper():
    of_three(True, 2)


def c29_two_of_three_lower():
    of_three(False, 2)


def of_four(upper, min_points, width):
    ps = [(0, num("y0")), (1, num("y1")), (2, num("y2")), (3, num("y3"))]
    l = grown(ps, upper, min_points, width=width)
    bounds(l, ps, upper, "of four points")


def c29_four_upper():
    of_four(True, 3, 1)


def c29_four_lower():
    of_four(False, 3, 1)


def c29_wide_upper():
    of_four(True, 2, 3)


def c29_wide_lower():
    of_four(False, 2, 3)


def dip(upper):
    """three points on a line and one away from it, on the inner side"""
    m = num("m")
    y0 = num("y0")
    d = pos("d")
    if not upper:
        d = -d
    ps = [(0, y0), (1, y0 + m - d), (2, y0 + 2 * m), (3, y0 + 3 * m)]
    l = grown(ps, upper, 3)
    check(l.is_valid, "highs (lows) on a line make a line whatever lies below (above)")
    if l.is_valid:
        check(len(l.trend_points) == 3 and ps[1] not in l.trend_points, "a line is made of the points on it")
        same(l.y(5), y0 + 5 * m, "a line goes through its points")
        same(l.y(-1), y0 - m, "a line goes through its points")
        check(l.x(l.y(7)) == 7 or m == 0, "a line has its value where it has it")
        if m == 0:
            check(l.x(y0) == 0, "a level line has its value where it starts")
            check(l.x(y0 + 1) is None and l.x(y0 - 1) is None, "a level line has no other value")
        same(l.width, 3, "as wide as from the first to the last point")
        check(l.search_interval.contains(0) and l.search_interval.contains(29.5) and not l.search_interval.contains(30) and not l.search_interval.contains(-1), "a line is searched for over a multiple of its width")
    l = grown(ps, not upper, 3)
    check(not l.is_valid, "a line of lows (highs) is not made of highs (lows)")


def c29_dip_upper():
    dip(True)


def c29_dip_lower():
    dip(False)


def c29_straight():
    """on both sides, and longer with every point"""
    m = num("m")
    y0 = num("y0")
    ps = [(i, y0 + i * m) for i in range(5)]
    for upper in [True, False]:
        l = grown(ps, upper, 4)
        check(l.is_valid and l.trend_points == ps, "all points of a straight line are on the line")
        same(l.width, 4, "as wide as from the first to the last point")
        same(l.y(9), y0 + 9 * m, "a line goes through its points")
        l = grown(ps, upper, 3, width=4)
        check(l.is_valid and l.trend_points == ps, "all points of a straight line are on the line")
        l = grown(ps, upper, 3, width=5)
        check(not l.is_valid, "not wide enough")
        l = grown(ps, upper, 6)
        check(not l.is_valid, "not enough points")
        l = grown(ps, upper, 3, distance=1)
        check(l.is_valid, "far enough apart")
        l = grown([ps[0], ps[2]], upper, 2, rel=0)
        check(l.is_valid and l.search_interval.contains(2) and not l.search_interval.contains(2.5), "searched for between its points only")


def tolerant(upper):
    m = num("m")
    y0 = num("y0")
    e = num("e")
    t = pos("t")
    ps = [(0, y0), (2, y0 + 2 * m + e), (4, y0 + 4 * m)]
    l = grown(ps, upper, 3, tol=t)
    check(l.is_valid == (e <= t and e >= -t), "three points make a line when the middle one is within the tolerance")
    if l.is_ready:
        a, b = l._line
        for x in [a[0], b[0], 1]:
            same(l._y_max(x), l.y(x) + t, "the tolerance widens the line above, everywhere")
            same(l._y_min(x), l.y(x) - t, "the tolerance widens the line below, everywhere")


def c29_tolerant_upper():
    tolerant(True)


def c29_tolerant_lower():
    tolerant(False)


def c29_on_trend():
    m = num("m")
    y0 = num("y0")
    t = pos("t")
    e = num("e")
    x = num("x")
    ps = [(0, y0), (2, y0 + 2 * m), (4, y0 + 4 * m)]
    l = grown(ps, True, 3, tol=t)
    check(l.is_point_on_trend((x, y0 + x * m + e)) == (0 <= x < 40 and e <= t and e >= -t), "a point is on a trend when within its tolerance where it is searched for")
    k = num("k")
    o = grown([(1, y0 + m + e), (5, y0 + 5 * m + k)], False, 2, tol=t)
    check(l.is_line_coincident(o) == (e <= t and e >= -t and k <= t and k >= -t), "a line coincides with a trend when its ends are on it")


def c29_grows():
    """what happens to a line with the next point"""
    m = num("m")
    y0 = num("y0")
    t = pos("t")
    e = num("e")
    for upper in [True, False]:
        ps = [(0, y0), (2, y0 + 2 * m), (4, y0 + 4 * m)]
        l = grown(ps, upper, 3, tol=t)
        p = (7, y0 + 7 * m + e)
        on = e <= t and e >= -t
        ps.append(p)
        l.did_append_point(p, ps)
        check((p in l.trend_points) == on, "a point on a line becomes one of its points, and no other does")
        check(l.is_valid and len(l.trend_points) == (4 if on else 3), "a valid line stays valid")
        q = (80, y0 + 80 * m)
        l.did_append_point(q, ps + [q])
        check(q not in l.trend_points, "a point beyond the search is none of its points")


def c29_close_points():
    """points closer than the minimum distance"""
    m = num("m")
    y0 = num("y0")
    d = num("d")
    assume(d >= 0)
    ps = [(0, y0), (2, y0 + 2 * m), (5, y0 + 5 * m)]
    for upper in [True, False]:
        l = grown(ps, upper, 3, distance=d)
        check(l.is_valid == (d <= 2), "points closer than the minimum distance do not count")
        l = grown(ps, upper, 2, width=5, distance=d)
        check(l.is_valid == (d <= 3), "points closer than the minimum distance do not count")


# ------------------------------------------------------------- the trends of a curve
def reported(t, x, upper, lines, source, min_width, min_points, distance, what):
    for l in lines:
        check(l.is_upper_trend == upper, what + ": upper lines are upper lines, lower lines lower ones")
        check(l.width >= min_width, what + ": every line is as wide as asked for")
        check(spaced(l.trend_points, min_points, distance), what + ": every line has as many points as asked for, at the distance")
        for q in l.trend_points:
            check(source.y(q[0]) == q[1], what + ": every line is made of points of the source")
        if x is not None:
            check(l.search_interval.contains(x), what + ": a line is searched for at the position")
            check(l.trend_points[0][0] <= x and (x <= l.trend_points[-1][0] or x < l.trend_points[0][0] + l.width * l.search_length_rel), what + ": a line is searched for at the position")


def trends(p, xs, width, n, d, what):
    t = Trend(p, width, min_points=n, min_point_distance=d, y_tol_abs=0)
    for x in xs:
        up = t.upper(x)
        lo = t.lower(x)
        reported(t, x, True, up, p, width, n, d, what)
        reported(t, x, False, lo, p, width, n, d, what)
        check(t.y(x) == lo + up, what + ": the trends are the lower and the upper ones")
    return t


def c29_trends_of_three():
    trends(Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))]), [2], 1, 3, 0, "trends of three points")


def c29_trends_of_four():
    trends(Points([(0, num("y0")), (1, num("y1")), (2, num("y2")), (3, num("y3"))]), [3], 2, 3, 0, "trends of four points")


def c29_trends_of_two():
    trends(Points([(0, num("y0")), (2, num("y1")), (3, num("y2"))], uniform=False), [2, 3], 1, 2, 2, "trends through two points")


def c29_trends_straight():
    m = num("m")
    y0 = num("y0")
    p = Points([(i, y0 + i * m) for i in range(5)])
    t = trends(p, [4], 2, 3, 1, "trends of a straight line")
    for ls in [t.upper(4), t.lower(4)]:
        check(len(ls) == 1, "one line follows a straight line")
        if len(ls) == 1:
            same(ls[0].y(9), y0 + 9 * m, "the line of a straight line")
    check(t.lines == t.lower(4) + t.upper(4), "all lines")
    check(t.upper(-1) == [] and t.lower(-1) == [], "nothing before the curve begins")


def c29_settings():
    """C14"""
    p = Points([(0, 0), (1, 1), (2, 2), (3, 3)])
    mw = 2
    for upper in [True, False]:
        t = Trend(p, mw, min_points=3, min_point_distance=num("d"), search_length_rel=num("s"), search_length_int_rel=num("si"),
                  x_tol_rel=num("xr"), x_tol_abs=num("xa"), y_tol_rel=num("yr"), y_tol_abs=num("ya"))
        l = t._create_line(is_upper_trend=upper)
        check(l.is_upper_trend == upper and l.min_width == 2 and l.min_points == 3, "settings reach every line")
        same(l.min_point_distance, num("d"), "settings reach every line")
        same(l.search_length_rel, num("s"), "settings reach every line")
        same(l.search_length_int_rel, num("si"), "settings reach every line")
        same(l.x_tol_rel, num("xr"), "settings reach every line")
        same(l.x_tol_abs, num("xa"), "settings reach every line")
        same(l.y_tol_rel, num("yr"), "settings reach every line")
        same(l.y_tol_abs, num("ya"), "settings reach every line")
        c = l.copy()
        check(c.is_upper_trend == upper and c.min_width == 2 and c.min_points == 3, "settings reach every copy")
        same(c.min_point_distance, num("d"), "settings reach every copy")
        same(c.search_length_rel, num("s"), "settings reach every copy")
        same(c.x_tol_rel, num("xr"), "settings reach every copy")
        same(c.x_tol_abs, num("xa"), "settings reach every copy")
        same(c.y_tol_rel, num("yr"), "settings reach every copy")
        same(c.y_tol_abs, num("ya"), "settings reach every copy")
    t = Trend(p, mw)
    check(t.y_tol_abs is None and t.y_tol_rel > 0 and t.x_tol_rel > 0 and t.x_tol_abs is None, "a relative tolerance unless one is given")
    t = Trend(p, mw, y_tol_abs=0, x_tol_abs=0)
    check(t.y_tol_rel is None and t.x_tol_rel is None, "no relative tolerance when an absolute one is given")


# ------------------------------------------------------------- copies
def c29_copy():
    """C19"""
    m = num("m")
    y0 = num("y0")
    ps = [(0, y0), (1, y0 + m), (2, y0 + 2 * m), (3, y0 + 3 * m - pos("d")), (4, y0 + 4 * m + pos("e"))]
    for l in [grown(ps, True, 3), grown(ps, False, 3)]:
        for c in [l.copy(), copy.copy(l)]:
            check(c.trend_points == l.trend_points and c.intersections == l.intersections and c.tangent_points == l.tangent_points and c.extremas == l.extremas, "a copy has what the line has")
            check(c.is_valid == l.is_valid and c.width == l.width, "a copy is what the line is")
            same(c.y(9), l.y(9), "a copy is where the line is")
            same(c._y_max(9), l._y_max(9), "a copy is as wide as the line")
            same(c._y_min(9), l._y_min(9), "a copy is as wide as the line")
            check(c.search_interval == l.search_interval, "a copy is searched for where the line is")
            n = len(l.trend_points)
            i = len(l.intersections)
            k = len(l.tangent_points)
            e = len(l.extremas)
            b = len(l._boundary_points)
            c.trend_points.append((9, 0))
            c.intersections.append((9, 0))
            c.tangent_points.append((9, 0))
            c.extremas.append((9, 0))
            c._boundary_points.append((9, 0))
            check(len(l.trend_points) == n and len(l.intersections) == i and len(l.tangent_points) == k and len(l.extremas) == e and len(l._boundary_points) == b, "a copied line shares nothing with the original")


def c29_copy_grows():
    """C19"""
    m = num("m")
    y0 = num("y0")
    ps = [(0, y0), (1, y0 + m), (2, y0 + 2 * m)]
    l = grown(ps, True, 3)
    c = l.copy()
    p = (5, y0 + 5 * m)
    c.did_append_point(p, ps + [p])
    check(len(c.trend_points) == 4 and len(l.trend_points) == 3, "a copied line grows by itself")
    same(l.width, 2, "a copied line grows by itself")
    l.did_append_point((4, y0 + 4 * m), ps + [(4, y0 + 4 * m)])
    check(len(c.trend_points) == 4 and len(l.trend_points) == 4, "the original grows by itself")
    same(c.width, 5, "the original grows by itself")
    same(l.width, 4, "the original grows by itself")


# ------------------------------------------------------------- histories
def shape(lines):
    out = []
    for l in lines:
        out.append((l.is_upper_trend, list(l.trend_points), l.search_interval.start, l.search_interval.end))
        out.append((list(l.tangent_points), list(l.intersections), list(l.extremas), l.prediction_phase, l.prediction_failed, l.prediction_succeeded, l.prediction_y))
    return out


def make(p, n=3, width=2):
    return Trend(p, width, min_points=n, y_tol_abs=0)


def alike(t, p, xs, what, n=3, width=2):
    for x in xs:
        f = make(p, n, width)
        check(shape(t.y(x)) == shape(f.y(x)), what + ": the trends are those of the source as it is")
    check(shape(t.upper(xs[-1])) == shape(make(p, n, width).upper(xs[-1])), what + ": the upper trends are those of the source as it is")
    check(shape(t.lower(xs[-1])) == shape(make(p, n, width).lower(xs[-1])), what + ": the lower trends are those of the source as it is")


def line_points(n):
    return [(i, num("y0") + i * num("m")) for i in range(n)]


def c08_trend_order():
    """C29"""
    p = Points(line_points(3) + [(3, num("v"))])
    t = make(p)
    alike(t, p, [1, 3, 2, 0, 3], "asked in any order")
    t = make(p)
    alike(t, p, [3, 1], "asked in any order")


def c08_trend_append():
    """C29"""
    p = Points(line_points(3))
    t = make(p)
    t.y(2)
    p.append((3, num("v")))
    alike(t, p, [3, 2], "after an append")


def c08_trend_far_append():
    """C29: beyond what was searched"""
    p = Points([(0, num("a")), (1, num("b")), (2, num("c"))], uniform=False)
    t = make(p, n=2, width=1)
    t.y(2)
    p.append((40, num("v")))
    alike(t, p, [40, 5], "after a far append", n=2, width=1)


def c08_trend_replace():
    """C29"""
    p = Points(line_points(4))
    t = make(p)
    t.y(3)
    p.reset(Interval.gte(2))
    alike(t, p, [3, 1], "after a reset of the end")
    p.append((2, num("v")))
    alike(t, p, [2], "after a point was replaced")


def c08_trend_set():
    """C29"""
    p = Points([(0, 1), (1, 3), (2, 1), (3, 4)])
    t = make(p)
    t.y(3)
    p.set(line_points(3))
    alike(t, p, [2], "after the points were set")


CROSSED = [(0, 0), (1, 1), (2, 2), (3, 0), (4, 6), (5, 1)]


def c08_trend_crossed():
    """C29: where the source crosses and touches its lines, after changes of later points"""
    p = Points(CROSSED)
    t = make(p)
    t.y(5)
    p.replace((5, 9))
    alike(t, p, [5, 2], "after the last point was replaced")
    p.replace((1, 3))
    alike(t, p, [5], "after an early point was replaced")


def c08_trend_uncrossed():
    """C29: where the source crosses and touches its lines, after the end went and came again"""
    p = Points(CROSSED)
    t = make(p)
    t.y(5)
    p.reset(Interval.gte(4))
    alike(t, p, [3], "after a reset of the end")
    p.append_list([(4, 1), (5, 4)])
    alike(t, p, [5, 4], "after points were appended again")


def c08_trend_grows():
    """C29: point by point, asked after each"""
    p = Points([(0, 0), (1, 1)])
    t = make(p)
    for x, y in [(2, 2), (3, 0), (4, 6), (5, 1), (6, 6), (7, 7)]:
        t.y(x - 1)
        p.append((x, y))
        alike(t, p, [x], "after an append")


class Free(Curve):
    """free steps"""

    def __init__(self, end):
        super().__init__()
        self.end = end

    def get_domain(self):
        return Interval.closed(0, self.end)

    def y(self, x):
        return num("y0") + num("m") * x


def c29_free():
    """C30 C09: a curve without positions of its own"""
    t = Trend(Free(4), 2, min_points=3, y_tol_abs=0, min_step=1)
    for ls in [t.upper(4), t.lower(4)]:
        check(len(ls) == 1, "one line follows a straight line")
        if len(ls) == 1:
            same(ls[0].y(9), num("y0") + 9 * num("m"), "the line of a straight line")


def c29_free_early():
    t = Trend(Free(4), 2, min_points=3, y_tol_abs=0, min_step=1)
    u = t.upper(1)
    check(len(u) == 1, "a line is reported for every position where it is searched for")
    check(len(t.lower(1)) == 1, "a line is reported for every position where it is searched for")


def c29_early():
    p = Points(line_points(4))
    t = make(p)
    for x in [0, 1, 1.5]:
        check(len(t.upper(x)) == 1 and len(t.lower(x)) == 1, "a line is reported for every position where it is searched for")
    t = make(p)
    check(len(t.y(25)) == 2, "a line is reported for every position where it is searched for")
    check(len(t.y(31)) == 0, "a line is not reported where it is not searched for")


def c29_missing():
    """C10"""
    p = Points([(0, num("a")), (1, None), (2, num("a")), (3, num("a"))])
    t = make(p)
    for ls in [t.upper(3), t.lower(3)]:
        check(len(ls) == 1, "a missing value is no point of a line")
        if len(ls) == 1:
            check(ls[0].trend_points == [(0, num("a")), (2, num("a")), (3, num("a"))], "a missing value is no point of a line")


def c29_empty():
    """C28"""
    t = make(Points([]))
    check(t.lines == [], "no trends of nothing")
    t = make(Points([(0, num("a"))]))
    check(t.y(0) == [] and t.lines == [], "no trends of a single point")


# ------------------------------------------------------------- ordered lists of points
def c29_insort():
    ps = [(0, "a"), (2, "b"), (4, "c")]
    x = num("x")
    q = list(ps)
    _insort_point_left(q, (x, "n"))
    check(len(q) == 4 and (x, "n") in q, "a point is inserted")
    for i in range(1, 4):
        check(q[i - 1][0] <= q[i][0], "points are kept in order")
    q = list(ps)
    _insort_point_left(q, (x, "n"), no_repeat=True)
    if x == 0 or x == 2 or x == 4:
        check(q == ps, "a position is not repeated")
    else:
        check(len(q) == 4 and (x, "n") in q, "a point is inserted")
        for i in range(1, 4):
            check(q[i - 1][0] < q[i][0], "points are kept in order")
    q = []
    _insort_points_left(q, [(3, "a"), (1, "b"), (2, "c"), (1, "d")], no_repeat=True)
    check(q == [(1, "b"), (2, "c"), (3, "a")], "points are inserted in order")
    q = []
    _insort_points_left(q, [(3, "a"), (1, "b"), (3, "c")])
    check([p[0] for p in q] == [1, 3, 3], "points are inserted in order")


def c29_extended():
    m = num("m")
    y0 = num("y0")
    l = grown([(0, y0), (2, y0 + 2 * m), (4, y0 + 4 * m)], True, 3)

    def ends(e, x0, x1, what):
        same(e[0][0], x0, what)
        same(e[1][0], x1, what)
        same(e[0][1], y0 + x0 * m, what)
        same(e[1][1], y0 + x1 * m, what)
    ends(l.line_extended(), 0, 4, "the line from its first to its last point")
    k = pos("k")
    ends(l.line_extended(width_mult=k), 0, 4 * k, "a line extended to a multiple of its width")
    w = pos("w")
    e = 4 if w >= 4 else w
    ends(l.line_extended(width_max=w), 0, e, "a line at most as wide as asked for")
    e = 4 * k if w >= 4 * k else w
    ends(l.line_extended(width_mult=k, width_max=w), 0, e, "a line at most as wide as asked for")
    l.intersections = [(6, y0 + 6 * m), (9, y0 + 9 * m), (12, y0 + 12 * m)]
    ends(l.line_extended(intersection_index=0), 0, 6, "a line up to an intersection")
    ends(l.line_extended(intersection_index=1), 0, 9, "a line up to an intersection")
    ends(l.line_extended(intersection_index=-1), 0, 12, "a line up to the last intersection")
    ends(l.line_extended(intersection_index=7), 0, 12, "a line up to the last intersection")
    ends(l.line_extended(intersection_index=-2), 0, 9, "a line up to the last intersection but one")
    ends(l.line_extended(intersection_index=-9), 0, 6, "a line up to the first intersection")
    ends(l.line_extended(width_mult=2, intersection_index=-9), 0, 9, "a line up to the next intersection")
    l.intersections = [(3, y0 + 3 * m), (9, y0 + 9 * m)]
    ends(l.line_extended(intersection_index=0), 0, 4, "a line is not cut short by an intersection it already passed")
    ends(l.line_extended(intersection_index=0, width_mult=3), 0, 9, "a line up to the next intersection")
    l.intersections = []
    ends(l.line_extended(intersection_index=0), 0, 4, "a line without intersections")
    l.intersections = [(6, y0 + 6 * m), (9, y0 + 9 * m), (12, y0 + 12 * m)]
    ends(l.line_extended(width_mult=2, intersection_index=0), 0, 9, "a line up to the next intersection")
    ends(l.line_extended(width_mult=2, intersection_index=2), 0, 24, "a line beyond the last intersection")
    ends(l.line_extended(width_max=5, intersection_index=0), 0, 5, "a line at most as wide as asked for")
    ends(l.line_extended(width_max=7, intersection_index=0), 0, 6, "a line up to an intersection")
    ends(l.line_extended(width_mult=2, width_max=8, intersection_index=0), 0, 8, "a line at most as wide as asked for")
    ends(l.line_extended(width_mult=2, width_max=11, intersection_index=0), 0, 9, "a line up to the next intersection")


def c29_searched():
    """how far a line is searched for"""
    m = num("m")
    y0 = num("y0")
    r = pos("r")
    for upper in [True, False]:
        for n in [2, 3]:
            for rel in [0, r, 10]:
                l = grown([(0, y0), (2, y0 + 2 * m), (4, y0 + 4 * m)], upper, n, rel=rel)
                if rel == 0:
                    same(l.search_interval, Interval.closed(0, l.trend_points[-1][0]), "a line is searched for along itself")
                else:
                    same(l.search_interval, Interval.closed_open(0, l.trend_points[-1][0] * rel), "a line is searched for up to a multiple of its length")
        l = grown([(0, y0)], upper, 2, rel=r)
        same(l.search_interval, Interval.point(0), "one point is where it is")


def c29_changes():
    """C01 C03 C05: the lines reported for a position change only where announced"""
    p = Points(line_points(2) + [(2, num("y0") + 2 * num("m"))])
    t = make(p, 4, 2)
    x = num("x")
    assume(x >= 0 and x <= 4)
    n = len(t.y(x))
    seen = []

    def begin(d):
        seen.append(("begin", d, len(t.y(x))))

    def end(d):
        seen.append(("end", d, len(t.y(x))))
    t.add_observer(begin=begin, end=end)
    p.append((3, num("y0") + 3 * num("m")))
    m = len(t.y(x))
    check(len(seen) == 2, "announced once and reported once")
    if len(seen) == 2:
        check(seen[0][0] == "begin" and seen[1][0] == "end", "announced before it is reported")
        check(seen[0][1] == seen[1][1], "announced and reported with the same interval")
        check(seen[0][2] == n and seen[1][2] == m, "the old lines when announced, the new ones when reported")
        if n != m:
            check(seen[1][1].contains(x), "the interval holds every position whose lines changed")
    check(not t.is_updating, "no update stays open")
