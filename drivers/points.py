"""C16: curves of points."""
from _driver_common import Src, watch
from curvepy import Curve, Points
from intervalpy import Interval
import math


def grid(n=3, mode=None, maybe_values=False):
    """n points from an unknown start at an unknown distance"""
    a = num("a")
    h = pos("h")
    ps = []
    for i in range(n):
        ps.append((a + i * h, maybe("v%d" % i) if maybe_values else num("v%d" % i)))
    return Points(ps, interpolation=mode), ps


def scattered(n=3, mode=None, maybe_values=False):
    """n points at unknown ascending positions"""
    ps = []
    x = num("a")
    for i in range(n):
        ps.append((x, maybe("v%d" % i) if maybe_values else num("v%d" % i)))
        x = x + pos("h%d" % i)
    return Points(ps, interpolation=mode, uniform=False), ps


def expected(ps, x, mode):
    """the value the points denote"""
    for i in range(len(ps)):
        if x == ps[i][0]:
            return ps[i][1]
    for i in range(len(ps) - 1):
        if x > ps[i][0] and x < ps[i + 1][0]:
            if mode == "previous":
                return ps[i][1]
            if mode == "next":
                return ps[i + 1][1]
            if ps[i][1] is None or ps[i + 1][1] is None:
                return None
            return ps[i][1] + (ps[i + 1][1] - ps[i][1]) * (x - ps[i][0]) / (ps[i + 1][0] - ps[i][0])
    return None


def c16_linear():
    """C28"""
    p, ps = grid()
    x = num("x")
    same(p.y(x), expected(ps, x, "linear"), "linear interpolation between neighbours")
    same(p(x), expected(ps, x, "linear"), "calling a curve gives its value")


def c16_linear_explicit():
    p, ps = grid(3, Points.interpolation.linear)
    x = num("x")
    same(p.y(x), expected(ps, x, "linear"), "linear interpolation between neighbours, asked for")


def c16_previous():
    """C28"""
    p, ps = grid(3, Points.interpolation.previous)
    x = num("x")
    same(p.y(x), expected(ps, x, "previous"), "the left value between neighbours")


def c16_next():
    """C28"""
    p, ps = grid(3, Points.interpolation.next)
    x = num("x")
    same(p.y(x), expected(ps, x, "next"), "the right value between neighbours")


def c16_scattered_linear():
    """C28"""
    p, ps = scattered()
    x = num("x")
    same(p.y(x), expected(ps, x, "linear"), "linear interpolation between irregular neighbours")


def c16_scattered_previous():
    p, ps = scattered(3, Points.interpolation.previous)
    x = num("x")
    same(p.y(x), expected(ps, x, "previous"), "the left value between irregular neighbours")


def c16_scattered_next():
    p, ps = scattered(3, Points.interpolation.next)
    x = num("x")
    same(p.y(x), expected(ps, x, "next"), "the right value between irregular neighbours")


def c16_missing_values():
    """C10"""
    for mode in ["linear", "previous", "next"]:
        m = {"linear": Points.interpolation.linear, "previous": Points.interpolation.previous, "next": Points.interpolation.next}[mode]
        p, ps = grid(3, m, True)
        x = num("x")
        same(p.y(x), expected(ps, x, mode), "a point without a value: " + mode)


def c16_missing_values_scattered():
    """C10"""
    for mode in ["linear", "previous", "next"]:
        m = {"linear": Points.interpolation.linear, "previous": Points.interpolation.previous, "next": Points.interpolation.next}[mode]
        p, ps = scattered(3, m, True)
        x = num("x")
        same(p.y(x), expected(ps, x, mode), "an irregular point without a value: " + mode)


def c16_at_points():
    p, ps = grid(4)
    for q in ps:
        same(p.y(q[0]), q[1], "the value at a point")
    s, ps = scattered(4)
    for q in ps:
        same(s.y(q[0]), q[1], "the value at an irregular point")


def c16_one_point():
    """C28"""
    a, v, x = num("a"), num("v"), num("x")
    for u in [True, False]:
        p = Points([(a, v)], uniform=u)
        if x == a:
            same(p.y(x), v, "a single point has its value")
        else:
            check(p.y(x) is None, "no value beside a single point")
        check(p.domain == Interval.closed(a, a), "the domain of a single point")


def c16_no_points():
    """C28 C10 C23"""
    for u in [True, False]:
        p = Points([], uniform=u)
        x = num("x")
        check(p.y(x) is None, "no points, no value")
        check(p.domain.is_empty, "no points, no domain")
        check(p.x_next(x) is None and p.x_previous(x) is None, "no points, no steps")
        check(p.y_start() is None and p.y_end() is None, "no points, no ends")
        check(p.first_point() is None and p.last_point() is None, "no points, no first or last")
        check(len(p.sample_points()) == 0, "no points, no samples")
        check(p.get_range().is_empty, "no points, no range")


def c16_ends():
    """C28"""
    p, ps = grid(3)
    same(p.y_start(), ps[0][1], "y_start is the first value")
    same(p.y_end(), ps[2][1], "y_end is the last value")
    same(p.first_point(), ps[0], "first_point")
    same(p.last_point(), ps[2], "last_point")
    check(p.domain == Interval.closed(ps[0][0], ps[2][0]), "the domain is from the first to the last point")
    s, ps = scattered(3)
    same(s.y_start(), ps[0][1], "y_start is the first value, irregular")
    same(s.y_end(), ps[2][1], "y_end is the last value, irregular")
    check(s.domain == Interval.closed(ps[0][0], ps[2][0]), "the domain is from the first to the last point, irregular")


def next_of(ps, x, step):
    """nearest point at least step after x; none when x + step is not before the end or at it"""
    if x + step <= ps[0][0] and x + step != ps[0][0]:
        return None
    for q in ps:
        if q[0] >= x + step:
            return q[0]
    return None


def previous_of(ps, x, step):
    best = None
    for q in ps:
        if q[0] <= x - step:
            best = q[0]
    return best


def c16_x_next():
    """C28"""
    p, ps = grid(3)
    x = num("x")
    s = pos("s")
    assume(x >= ps[0][0])
    got = p.x_next(x, min_step=s)
    same(got, next_of(ps, x, s), "the next point at least the minimum step away")


def c16_x_previous():
    """C28"""
    p, ps = grid(3)
    x = num("x")
    s = pos("s")
    assume(x <= ps[2][0])
    got = p.x_previous(x, min_step=s)
    same(got, previous_of(ps, x, s), "the previous point at least the minimum step away")


def c16_x_next_scattered():
    """C28"""
    p, ps = scattered(3)
    x = num("x")
    s = pos("s")
    assume(x >= ps[0][0])
    same(p.x_next(x, min_step=s), next_of(ps, x, s), "the next irregular point at least the minimum step away")


def c16_x_previous_scattered():
    """C28"""
    p, ps = scattered(3)
    x = num("x")
    s = pos("s")
    assume(x <= ps[2][0])
    same(p.x_previous(x, min_step=s), previous_of(ps, x, s), "the previous irregular point at least the minimum step away")


def c16_steps_from_outside():
    """C28: a step from before the first point reaches the first point or beyond, never one behind"""
    p, ps = grid(3)
    x = num("x")
    s = pos("s")
    n = p.x_next(x, min_step=s)
    if n is not None:
        check(n > x, "a step forward is forward")
        check(p.domain.contains(n), "a step forward stays inside")
    m = p.x_previous(x, min_step=s)
    if m is not None:
        check(m < x, "a step backward is backward")
        check(p.domain.contains(m), "a step backward stays inside")


def c16_steps_from_infinity():
    p, ps = grid(3)
    q = Points([(1, num("u")), (2, num("v"))])
    n = q.x_next(-math.inf)
    check(n is None or n == 1, "the first point follows minus infinity")
    m = q.x_previous(math.inf)
    check(m is None or m == 2, "the last point precedes infinity")


def c16_neighbour_points():
    """C28"""
    p, ps = grid(3)
    h = ps[1][0] - ps[0][0]
    same(p.next_point(ps[0][0], min_step=h), ps[1], "next_point is the neighbour")
    same(p.previous_point(ps[2][0], min_step=h), ps[1], "previous_point is the neighbour")
    check(p.next_point(ps[2][0], min_step=h) is None, "no point follows the last")
    check(p.previous_point(ps[0][0], min_step=h) is None, "no point precedes the first")


def inside(ps, d):
    out = []
    for q in ps:
        if d.contains(q[0]):
            out.append(q)
    return out


def c16_samples_all():
    """C23"""
    for make in [grid, scattered]:
        p, ps = make(3)
        same(p.sample_points(), ps, "sampling everything gives the points")
        same(p.sample_points(Interval.infinite()), ps, "sampling an infinite interval gives the points")


def samples(p, ps, what):
    lo, hi = num("lo"), num("hi")
    assume(lo <= hi)
    for d in [Interval.closed(lo, hi), Interval.open_closed(lo, hi), Interval.closed_open(lo, hi), Interval.open(lo, hi)]:
        same(p.sample_points(d), inside(ps, d), what)


def c16_samples_closed():
    """C23"""
    p, ps = grid(3)
    lo, hi = num("lo"), num("hi")
    assume(lo <= hi)
    d = Interval.closed(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the points of the interval")


def c16_samples_open():
    """C23"""
    p, ps = grid(3)
    lo, hi = num("lo"), num("hi")
    assume(lo < hi)
    d = Interval.open(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the points of the open interval")


def c16_samples_half_open():
    """C23"""
    p, ps = grid(3)
    lo, hi = num("lo"), num("hi")
    assume(lo < hi)
    d = Interval.closed_open(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the points of the half-open interval")
    d = Interval.open_closed(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the points of the other half-open interval")


def c16_samples_scattered():
    """C23"""
    p, ps = scattered(3)
    lo, hi = num("lo"), num("hi")
    assume(lo < hi)
    d = Interval.closed(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the irregular points of the interval")


def c16_samples_scattered_open():
    """C23"""
    p, ps = scattered(3)
    lo, hi = num("lo"), num("hi")
    assume(lo < hi)
    d = Interval.open(lo, hi)
    same(p.sample_points(d), inside(ps, d), "sampling gives the irregular points of the open interval")


def c16_samples_to_the_end():
    """C23"""
    p, ps = grid(4)
    lo = num("lo")
    d = Interval.closed(lo, math.inf)
    same(p.sample_points(d), inside(ps, d), "sampling an interval without end")
    d = Interval.closed(-math.inf, lo)
    same(p.sample_points(d), inside(ps, d), "sampling an interval without start")


def c16_uniform():
    """the spacing is reported as it is"""
    a, b, c = num("a"), pos("b"), pos("c")
    p = Points([(a, num("u")), (a + b, num("v")), (a + b + c, num("w"))], uniform=False)
    check(p.is_uniform == (b == c), "uniform exactly when the points are equidistant")


def c16_uniform_appended():
    a, b, c = num("a"), pos("b"), pos("c")
    p = Points([(a, num("u")), (a + b, num("v"))], uniform=False)
    p.append((a + b + c, num("w")))
    check(p.is_uniform == (b == c), "uniform after appending exactly when the points are equidistant")
    d = pos("d")
    p.append((a + b + c + d, num("z")))
    check(p.is_uniform == (b == c and c == d), "uniform after appending twice exactly when the points are equidistant")


def c16_uniform_many():
    a, b, c, d = num("a"), pos("b"), pos("c"), pos("d")
    p = Points([(a, num("u")), (a + b, num("v")), (a + b + c, num("w")), (a + b + c + d, num("z"))], uniform=False)
    check(p.is_uniform == (b == c and c == d), "uniform exactly when all the points are equidistant")


def c16_after_append():
    """values after appending"""
    p, ps = grid(2)
    h = ps[1][0] - ps[0][0]
    q = (ps[1][0] + h, num("w"))
    p.append(q)
    x = num("x")
    same(p.y(x), expected(ps + [q], x, "linear"), "interpolation after appending")


def c16_after_append_scattered():
    p, ps = scattered(2)
    q = (ps[1][0] + pos("k"), num("w"))
    p.append(q)
    x = num("x")
    same(p.y(x), expected(ps + [q], x, "linear"), "interpolation after appending an irregular point")


def c16_after_append_from_one():
    p, ps = scattered(1)
    q = (ps[0][0] + pos("k"), num("w"))
    r = (q[0] + pos("l"), num("z"))
    p.append(q)
    p.append(r)
    x = num("x")
    same(p.y(x), expected(ps + [q, r], x, "linear"), "interpolation after appending irregular points to one")


def c16_after_append_list():
    p, ps = scattered(2)
    q = (ps[1][0] + pos("k"), num("w"))
    r = (q[0] + pos("l"), num("z"))
    p.append_list([q, r])
    x = num("x")
    same(p.y(x), expected(ps + [q, r], x, "linear"), "interpolation after appending irregular points")


def c16_after_replace():
    for i in [0, 1, 2]:
        p, ps = grid(3)
        q = (ps[i][0], num("w"))
        p.replace(q)
        x = num("x")
        new = list(ps)
        new[i] = q
        same(p.y(x), expected(new, x, "linear"), "interpolation after replacing")


def c16_after_insert():
    """an irregular curve takes a point between two others"""
    p, ps = scattered(3)
    k = num("k")
    assume(k > ps[0][0] and k < ps[1][0])
    q = (k, num("w"))
    p.replace(q)
    x = num("x")
    same(p.y(x), expected([ps[0], q, ps[1], ps[2]], x, "linear"), "interpolation after inserting")



def c16_after_insert_last():
    p, ps = scattered(3)
    k = num("k")
    assume(k > ps[1][0] and k < ps[2][0])
    q = (k, num("w"))
    p.replace(q)
    x = num("x")
    same(p.y(x), expected([ps[0], ps[1], q, ps[2]], x, "linear"), "interpolation after inserting before the last")


def c16_insert_into_uniform():
    """C03: points given as equidistant, then one inserted"""
    p = Points([(0, num("u")), (2, num("v")), (4, num("w"))], uniform=False)
    q = (1, num("z"))
    p.replace(q)
    x = num("x")
    same(p.y(x), expected([(0, num("u")), q, (2, num("v")), (4, num("w"))], x, "linear"), "interpolation after inserting into equidistant points")
    check(not p.is_uniform, "no longer uniform after inserting")


def c16_replace_or_append():
    p, ps = scattered(2)
    q = (ps[1][0] + pos("k"), num("w"))
    p.replace(q, or_append=True)
    x = num("x")
    same(p.y(x), expected(ps + [q], x, "linear"), "replace or append beyond the last point appends")




def keep(ps, d):
    out = []
    for q in ps:
        if not d.contains(q[0]):
            out.append(q)
    return out


def c16_reset_tail():
    """C03 C01"""
    p, ps = grid(4)
    lo = num("lo")
    d = Interval.closed(lo, math.inf)
    p.reset(d)
    same(p.sample_points(), keep(ps, d), "resetting a tail removes exactly its points")


def c16_reset_tail_open():
    p, ps = grid(4)
    lo = num("lo")
    d = Interval(lo, math.inf, start_open=True)
    p.reset(d)
    same(p.sample_points(), keep(ps, d), "resetting an open tail removes exactly its points")


def c16_reset_head():
    p, ps = grid(4)
    hi = num("hi")
    d = Interval.closed(-math.inf, hi)
    p.reset(d)
    same(p.sample_points(), keep(ps, d), "resetting a head removes exactly its points")


def c16_reset_middle():
    p, ps = scattered(4)
    lo, hi = num("lo"), num("hi")
    assume(lo <= hi)
    d = Interval.closed(lo, hi)
    p.reset(d)
    same(p.sample_points(), keep(ps, d), "resetting an interval removes exactly its points")


def c16_reset_middle_open():
    p, ps = scattered(4)
    lo, hi = num("lo"), num("hi")
    assume(lo < hi)
    d = Interval.open(lo, hi)
    p.reset(d)
    same(p.sample_points(), keep(ps, d), "resetting an open interval removes exactly its points")


def c16_bad_mode():
    """C02"""
    failed = False
    try:
        Points([(0, 1)], interpolation=5)
    except Exception:
        failed = True
    check(failed, "an unknown interpolation mode is refused")


def c16_modes():
    p = Points([(0, num("u")), (1, num("v"))])
    check(p.interpolation == Points.interpolation.linear, "linear is the default")
    check(Points.interpolation.previous == -1 and Points.interpolation.linear == 0 and Points.interpolation.next == 1, "mode numbers")
    q = Points([(0, num("u")), (1, num("v"))], interpolation=Points.interpolation.linear)
    same(q.y(num("x")), p.y(num("x")), "mode 0 is linear")


def c16_mode_changed():
    p = Points([(0, num("u")), (2, num("v"))])
    p.interpolation = Points.interpolation.next
    same(p.y(1), num("v"), "the interpolation mode can be changed")


def c16_order_of_values():
    """the values of all the points are found"""
    p, ps = grid(5)
    same(p.sample_points(), ps, "points in order")
    for q in ps:
        same(p.y(q[0]), q[1], "the value at each of many points")


# --------------------------------------------------- spacing after changes
def spaced(p, xs, what):
    f = Points([(x, 0) for x in xs], uniform=False)
    check(p.is_uniform == f.is_uniform, what + ": uniform exactly when the points are equidistant")
    for x in [0, 1, 2.5, 4]:
        check(p.x_next(x) == f.x_next(x), what + ": the next position")
        check(p.x_previous(x) == f.x_previous(x), what + ": the previous position")


def c16_set_apart():
    """C08"""
    p = Points([(i, num("y%d" % i)) for i in range(4)], uniform=False)
    p.set([(2 * i, num("z%d" % i)) for i in range(4)])
    check(p.is_uniform, "points set at another distance are uniform when they are equidistant")
    spaced(p, [0, 2, 4, 6], "set at another distance")
    same(p.y(1), (num("z0") + num("z1")) / 2, "interpolated between the new points")
    p.append((8, num("z4")))
    check(p.is_uniform, "and so they are after appending at it")
    p.append((9, num("z5")))
    check(not p.is_uniform, "and not after appending off it")


def c16_set_again_regular():
    """C08"""
    p = Points([(i, num("y%d" % i)) for i in range(3)])
    p.set([])
    p.set([(2 * i, num("z%d" % i)) for i in range(3)])
    check(p.is_uniform, "points set at another distance when there are none")
    same(p.y(1), (num("z0") + num("z1")) / 2, "interpolated between the new points")
    p.append((6, num("z3")))
    same(p.y(5), (num("z2") + num("z3")) / 2, "and continued at it")


def c16_set_irregular_then_regular():
    p = Points([(i, num("y%d" % i)) for i in [0, 1, 4]], uniform=False)
    check(not p.is_uniform, "irregular")
    p.set([(i, num("z%d" % i)) for i in [0, 3, 6]])
    check(p.is_uniform, "set to equidistant points")
    p.set([(i, num("w%d" % i)) for i in [0, 3, 7]])
    check(not p.is_uniform, "and to others")
    p.set([(0, 1)])
    p.append((5, 2))
    p.append((10, 3))
    check(p.is_uniform, "and appended one by one")


def c16_reset_to_regular():
    """C08"""
    p = Points([(i, num("y%d" % i)) for i in [0, 2, 3, 4, 6]], uniform=False)
    check(not p.is_uniform, "irregular")
    p.reset(Interval.closed(3, 3))
    check(p.is_uniform, "equidistant points remain")
    spaced(p, [0, 2, 4, 6], "after removing the one between")
    p.reset(Interval.closed(0, 1))
    spaced(p, [2, 4, 6], "after removing the first")
    p.reset(Interval.closed(4, 4))
    check(p.is_uniform, "two points are equidistant")
    same(p.y(4), (num("y2") + num("y6")) / 2, "interpolated over what was removed")
