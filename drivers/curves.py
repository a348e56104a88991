"""C23, C24, C28, C10: what every curve inherits: steps, samples, derivatives, searches."""
from _driver_common import Src, watch
from curvepy import Curve, Constant, Points, Line, Generic, Empty, Map, Sin
from intervalpy import Interval
import math


class Bare(Curve):
    """a curve that defines its domain and values, and nothing else"""

    def __init__(self, dom, min_step=None):
        super().__init__(min_step=min_step)
        self.dom = dom

    def get_domain(self):
        return self.dom

    def y(self, x):
        log("bare.y", x)
        if not self.dom.contains(x):
            return None
        return app("bare", x)


class Holes(Bare):
    """... with missing values"""

    def y(self, x):
        if not self.dom.contains(x):
            return None
        return napp("holes", x)


class Walk(Curve):
    """steps from one unknown position to another"""

    def __init__(self, dom, xs):
        super().__init__()
        self.dom = dom
        self.xs = xs

    def get_domain(self):
        return self.dom

    def y(self, x):
        return app("walk", x)

    def x_next(self, x, min_step=None, limit=None):
        log("next", x, min_step, limit)
        for p in self.xs:
            if p > x:
                return p
        return None

    def x_previous(self, x, min_step=None, limit=None):
        log("previous", x, min_step, limit)
        for p in reversed(self.xs):
            if p < x:
                return p
        return None


# -------------------------------------------------------------------- C28 steps


def bounds(kind):
    a, b = num("a"), num("b")
    assume(a < b)
    if kind == 0:
        return a, b, Interval.closed(a, b)
    if kind == 1:
        return a, b, Interval.open(a, b)
    if kind == 2:
        return a, b, Interval.open_closed(a, b)
    return a, b, Interval.closed_open(a, b)


def stepped(c, d, x, h):
    n = c.x_next(x, min_step=h)
    p = c.x_previous(x, min_step=h)
    same(n, x + h if d.contains(x + h) else None, "a step forward is as long as asked, and stays in the domain")
    same(p, x - h if d.contains(x - h) else None, "a step backward is as long as asked, and stays in the domain")


def c28_steps_closed():
    a, b, d = bounds(0)
    x, h = num("x"), pos("h")
    assume(d.contains(x))
    stepped(Bare(d), d, x, h)


def c28_steps_open():
    a, b, d = bounds(1)
    x, h = num("x"), pos("h")
    assume(d.contains(x))
    stepped(Bare(d), d, x, h)


def c28_steps_half_open():
    a, b, d = bounds(2)
    x, h = num("x"), pos("h")
    assume(d.contains(x))
    stepped(Bare(d), d, x, h)


def c28_steps_other_half_open():
    a, b, d = bounds(3)
    x, h = num("x"), pos("h")
    assume(d.contains(x))
    stepped(Bare(d), d, x, h)


def c28_steps_infinite():
    x, h = num("x"), pos("h")
    stepped(Bare(Interval.infinite()), Interval.infinite(), x, h)
    d = Interval(num("a"), math.inf)
    assume(d.contains(x))
    stepped(Bare(d), d, x, h)


def c28_steps_own_step():
    """C14: the greater of the curve's own step and the one asked for"""
    x, h, m = num("x"), pos("h"), pos("m")
    c = Bare(Interval.infinite(), min_step=m)
    same(c.x_next(x, min_step=h), x + (m if m > h else h), "the greater step forward")
    same(c.x_previous(x, min_step=h), x - (m if m > h else h), "the greater step backward")
    same(c.x_next(x, min_step=None), x + m, "the curve's own step forward")
    same(c.x_previous(x, min_step=None), x - m, "the curve's own step backward")
    same(c.resolve_min_step(h), m if m > h else h, "the greater step")
    same(c.resolve_min_step(None), m, "the curve's own step")
    same(Bare(Interval.infinite()).resolve_min_step(h), h, "the step asked for")
    check(Bare(Interval.infinite()).resolve_min_step(None) is None, "no step at all")


def c28_steps_limit():
    """a limit ahead cuts the step short"""
    x, h, l = num("x"), pos("h"), num("l")
    c = Bare(Interval.infinite())
    if l > x:
        same(c.x_next(x, min_step=h, limit=l), l if l < x + h else x + h, "a step forward stops at the limit")
    if l < x:
        same(c.x_previous(x, min_step=h, limit=l), l if l > x - h else x - h, "a step backward stops at the limit")


def c28_steps_limit_in_domain():
    a, b, d = bounds(0)
    x, h, l = num("x"), pos("h"), num("l")
    assume(d.contains(x) and l > b)
    c = Bare(d)
    n = c.x_next(x, min_step=h, limit=l)
    check(n is None or (n > x and n <= b), "a step forward leaves the domain for no limit")


def c28_steps_limit_in_domain_back():
    a, b, d = bounds(0)
    x, h, l = num("x"), pos("h"), num("l")
    assume(d.contains(x) and l < a)
    c = Bare(d)
    n = c.x_previous(x, min_step=h, limit=l)
    check(n is None or (n < x and n >= a), "a step backward leaves the domain for no limit")


def c28_limit_zero():
    """C10"""
    x, h = num("x"), pos("h")
    c = Bare(Interval.infinite())
    if x < 0:
        same(c.x_next(x, min_step=h, limit=0), 0 if x + h > 0 else x + h, "a limit of zero is a limit")
    if x > 0:
        same(c.x_previous(x, min_step=h, limit=0), 0 if x - h < 0 else x - h, "a limit of zero is a limit, backward")


def c28_ends():
    a, b, d = bounds(0)
    c = Bare(d)
    same(c.y_start(), c.y(a), "the start value is the value at the start")
    same(c.y_end(), c.y(b), "the end value is the value at the end")
    same(c.first_point(), (a, c.y(a)), "the first point")
    same(c.last_point(), (b, c.y(b)), "the last point")


def c28_no_ends():
    """C10"""
    c = Bare(Interval.empty())
    check(c.first_point() is None, "an empty curve has no first point")
    check(c.last_point() is None, "an empty curve has no last point")
    check(c.x_next(num("x"), min_step=pos("h")) is None, "an empty curve has no steps")
    check(c.x_previous(num("x"), min_step=pos("h")) is None, "an empty curve has no steps back")
    check(c.d_y(num("x")) is None, "an empty curve has no slope")
    check(c.sample_points() == [], "an empty curve has no samples")


def c28_neighbours():
    s = Src("s")
    x, h = num("x"), pos("h")
    n, p = s.x_next(x, min_step=h), s.x_previous(x, min_step=h)
    same(s.next_point(x, min_step=h), None if n is None else (n, s.y(n)), "the next point is the next position and its value")
    same(s.previous_point(x, min_step=h), None if p is None else (p, s.y(p)), "the previous point is the previous position and its value")


def c28_generic():
    """C27"""
    a, b, d = bounds(0)
    f = fn("f", 1)
    x = num("x")
    g = Generic(f, domain=d)
    check(g.domain == d, "the domain given")
    same(g.y(x), f(x) if d.contains(x) else None, "the function inside its domain, nothing outside")
    same(Generic(f).y(x), f(x), "the function everywhere")


def c28_generic_steps():
    a, b, d = bounds(3)
    x, h, m = num("x"), pos("h"), pos("m")
    assume(d.contains(x))
    stepped(Generic(fn("f", 1), domain=d, min_step=1e-5), d, x, 1 + h)
    g = Generic(fn("f", 1), min_step=m)
    same(g.x_next(x, min_step=None), x + m, "the step given")


def c28_constant_domain():
    """C17 C10"""
    a, b, d = bounds(2)
    x, v = num("x"), num("v")
    c = Constant(v, domain=d)
    same(c.y(x), v if d.contains(x) else None, "a constant inside its domain, nothing outside")
    check(c.domain == d, "the domain of a constant")
    same(Constant(v).y(x), v, "a constant everywhere")
    same(Constant(v)(x), v, "a constant everywhere, called")
    same(Constant.zero().y(x), 0, "the constant zero")
    same(Curve.zero(0).y(x), 0, "the constant zero, of a curve")
    same(Curve.const(v).y(x), v, "the constant, of a curve")
    same(c.value, v, "the value of a constant")


def c28_empty():
    """C10"""
    x = num("x")
    for e in [Empty(), Curve.empty()]:
        check(e.domain.is_empty, "an empty curve has an empty domain")
        check(e.y(x) is None and e(x) is None, "an empty curve has no value")
        check(e.d_y(x) is None and e.d_y(x, forward=True) is None, "an empty curve has no slope")
        check(e.x(x) is None, "an empty curve has no position for a value")
        check(e.first_point() is None and e.last_point() is None, "an empty curve has no ends")
        check(e.x_next(x) is None and e.x_previous(x) is None, "an empty curve has no steps")
        check(e.sample_points() == [], "an empty curve has no samples")
        check(e.sample_points(Interval.closed(0, 1)) == [], "an empty curve has no samples in an interval")


def c28_map():
    """C10"""
    a, b, d = bounds(0)
    s = Src("s", d)
    x, h, l = num("x"), pos("h"), num("l")
    m = s.map(lambda y: y, skip_none=True)
    check(m.domain == d, "a map lives where its source does")
    same(m.y(x), s.y(x), "a map of nothing is nothing")
    same(m.x_next(x, min_step=1 + h, limit=l), s.x_next(x, min_step=1 + h, limit=l), "a map steps with its source")
    same(m.x_previous(x, min_step=1 + h, limit=l), s.x_previous(x, min_step=1 + h, limit=l), "a map steps back with its source")


def c28_map_outside():
    """C11: whatever its function makes of missing values, and it is not called there"""
    s = Src("s", Interval.closed(0, 10))
    x = num("x")
    assume(x < 0 or x > 10)

    def f(y):
        log("called", y)
        return 0
    check(s.map(f).y(x) is None, "a map has no value outside its domain")
    check(s.map(lambda x, y: f(y)).y(x) is None, "a map with the position has no value outside its domain")
    check(logged("called") == [], "and does not ask its function there")
    check(Points([(0, 1), (1, 2)]).map(lambda y: y + 1).y(x) is None, "a map does not fail outside its domain")
    check(Curve.empty().map(f).y(x) is None, "a map of nothing has no value")


def c28_map_functions():
    """C10 C14"""
    s = Src("s")
    x = num("x")
    f = fn("f", 1)
    g = fn("g", 2)
    y = s.y(x)
    same(s.map(f).y(x), f(y), "the function of the value, also a missing one")
    same(s.map(g).y(x), g(x, y), "the function of the position and the value")
    same(s.map(f, skip_none=True).y(x), None if y is None else f(y), "a missing value is skipped")
    same(s.map(g, skip_none=True).y(x), None if y is None else g(x, y), "a missing value is skipped, with the position")
    same(Map(s, f, skip_none=True).y(x), None if y is None else f(y), "a missing value is skipped, constructed")


def c28_map_step():
    """C14: a map steps with the greater of its own and its source's step"""
    m, n = pos("m"), pos("n")
    s = Src("s", min_step=m)
    f = Map(s, fn("f", 1), min_step=n)
    same(f.min_step, m if m > n else n, "the greater step of source and map")
    same(Src("s").map(fn("f", 1), min_step=n).min_step, n, "the step given to a map")


# ------------------------------------------------------------------ derivatives


def slope(s, x, x1):
    if x1 is None:
        return None
    y, y1 = s.y(x), s.y(x1)
    if y is None or y1 is None:
        return None
    return (y1 - y) / (x1 - x)


def c28_derivative():
    """C34 C10 C14: the slope towards the neighbouring position, missing where a value is"""
    s = Src("s")
    x, h, l = num("x"), pos("h"), num("l")
    n, p = s.x_next(x, min_step=h, limit=l), s.x_previous(x, min_step=h, limit=l)
    if n is None or n != x:
        same(s.d_y(x, forward=True, min_step=h, limit=l), slope(s, x, n), "the slope to the next position")
    if p is None or p != x:
        same(s.d_y(x, min_step=h, limit=l), slope(s, x, p), "the slope from the previous position")
        same(s.d_y(x, forward=False, min_step=h, limit=l), slope(s, x, p), "the slope from the previous position")


def c28_derivative_at_limit():
    """C34"""
    class Stuck(Src):
        def x_next(self, x, min_step=None, limit=None):
            return x

        def x_previous(self, x, min_step=None, limit=None):
            return x
    s = Stuck("s")
    x = num("x")
    y = s.y(x)
    check(s.d_y(x, forward=True) == (None if y is None else math.inf), "no step forward: steep")
    check(s.d_y(x) == (None if y is None else -math.inf), "no step backward: steep")


def c28_derivative_of_bare():
    """C34"""
    c = Bare(Interval.infinite())
    x, h = num("x"), pos("h")
    same(c.d_y(x, min_step=h), (c.y(x) - c.y(x - h)) / h, "the slope over a step back")
    same(c.d_y(x, forward=True, min_step=h), (c.y(x + h) - c.y(x)) / h, "the slope over a step forward")


def c28_differential():
    """C13 C14"""
    s = Src("s")
    x = num("x")
    same(s.differential().y(x), s.d_y(x), "the differential is the slope backward")
    same(s.differential(forward=True).y(x), s.d_y(x, forward=True), "the differential forward")
    same(s.differential(forward=False).y(x), s.d_y(x, forward=False), "the differential backward")


def c28_differential_of_points():
    """C13 C10"""
    p = Points([(0, num("u")), (1, num("v")), (2, num("w"))])
    d = p.differential()
    same(d.y(1), num("v") - num("u"), "the slope from the left")
    same(d.y(2), num("w") - num("v"), "the slope at the end")
    check(d.y(0) is None, "no slope before the first point")
    f = p.differential(forward=True)
    same(f.y(0), num("v") - num("u"), "the slope to the right")
    same(f.y(1), num("w") - num("v"), "the slope to the right")
    check(f.y(2) is None, "no slope after the last point")


# --------------------------------------------------------------------- sampling


def c23_bare_steps():
    """C28"""
    c = Bare(Interval.closed(num("a"), num("a") + 3))
    a = num("a")
    e = [(a + i, c.y(a + i)) for i in range(4)]
    same(c.sample_points(min_step=1), e, "samples a step apart, with both closed ends")
    same(c.sample_points(Interval.closed(a, a + 3), min_step=1), e, "samples of the whole domain")
    same(c.sample_points(Interval.closed(a - 5, a + 9), min_step=1), e, "samples of more than the domain")
    same(c.sample_points(Interval.infinite(), min_step=1), e, "samples of everything")
    same(c.sample_points(Interval.open(a, a + 3), min_step=1), e[1:3], "samples of an open interval")
    same(c.sample_points(Interval.closed_open(a, a + 3), min_step=1), e[:3], "samples without the end")
    same(c.sample_points(Interval.open_closed(a, a + 3), min_step=1), e[1:], "samples without the start")
    same(c.sample_points([a + 1, a + 2], min_step=1), e[1:3], "samples of a part")


def c23_bare_rest():
    """the closed end is sampled also when it is not a whole step away"""
    c = Bare(Interval.closed(0, num("b")))
    b = num("b")
    assume(b > 2 and b < 3)
    e = [(0, c.y(0)), (1, c.y(1)), (2, c.y(2)), (b, c.y(b))]
    same(c.sample_points(min_step=1), e, "the closed end closes the samples")
    same(c.sample_points(Interval.closed_open(0, b), min_step=1)[:2], e[:2], "without the open end")
    for p in c.sample_points(Interval.closed_open(0, b), min_step=1):
        check(p[0] < b, "no sample at an open end")


def c23_bare_fixed():
    """a fixed step gives the start plus its multiples"""
    c = Bare(Interval.closed(num("a"), num("a") + 3))
    a = num("a")
    e = [(a + i, c.y(a + i)) for i in range(4)]
    same(c.sample_points(step=1), e, "the start and its multiples")
    same(c.sample_points(step=2), [e[0], e[2]], "the start and its multiples, two apart")
    same(c.sample_points(Interval.open(a, a + 3), step=1), e[1:3], "an open start starts the multiples")
    same(c.sample_points(Interval.closed(a + 1, a + 2), step=1), e[1:3], "the multiples from the start of a part")
    same(c.sample_points(Interval.closed(a + 2, a + 9), step=1), e[2:], "the multiples up to the end of the domain")


def c23_many():
    """C17: as many samples as the steps fit, whatever their number"""
    c = Bare(Interval.closed(0, 2500))
    k = c.sample_points(step=1)
    check(len(k) == 2501, "every multiple of the step")
    check(k[0][0] == 0 and k[1300][0] == 1300 and k[-1][0] == 2500, "the multiples of the step")
    k = c.sample_points(min_step=1)
    check(len(k) == 2501 and k[-1][0] == 2500, "every step")


def c23_missing():
    """C10: a sample without value is kept as such"""
    c = Holes(Interval.closed(0, 2))
    same(c.sample_points(min_step=1), [(0, c.y(0)), (1, c.y(1)), (2, c.y(2))], "a missing value is sampled as missing")
    same(c.sample_points(step=1), [(0, c.y(0)), (1, c.y(1)), (2, c.y(2))], "a missing value is sampled as missing, by step")


def c23_nothing_common():
    c = Bare(Interval.closed(0, 2))
    check(c.sample_points(Interval.closed(5, 6)) == [], "nothing outside the domain")
    check(c.sample_points(Interval.empty()) == [], "nothing in nothing")


def c23_infinite_is_refused():
    failed = False
    try:
        Bare(Interval.infinite()).sample_points(min_step=1)
    except Exception:
        failed = True
    check(failed, "an infinite interval is refused")


def c23_walk():
    """whatever the steps of a curve: samples ascend, lie in the interval and on the curve"""
    p, q, r = num("p"), num("q"), num("r")
    a, b = num("a"), num("b")
    assume(a < p and p + 1 <= q and q + 1 <= r and r < b and a + 1 <= p and r + 1 <= b)
    c = Walk(Interval.closed(a, b), [p, q, r, b])
    s = c.sample_points(min_step=1)
    same([z[0] for z in s], [a, p, q, r, b], "the positions stepped to, between the ends")
    for z in s:
        same(z[1], app("walk", z[0]), "samples lie on the curve")


def c23_walk_beyond():
    """a step over the end ends the samples, with the closed end itself"""
    p, b = num("p"), num("b")
    assume(p >= 1 and b > p and num("q") > b)
    c = Walk(Interval.closed(0, 100), [p, num("q")])
    assume(b < 100 and b >= p + 1)
    same(c.sample_points(Interval.closed(0, b), min_step=1), [(0, c.y(0)), (p, c.y(p)), (b, c.y(b))], "the end closes the samples")
    same(c.sample_points(Interval.closed_open(0, b), min_step=1), [(0, c.y(0)), (p, c.y(p))], "an open end does not")


def c23_limit_passed():
    """C14: the end of the interval limits the steps"""
    c = Walk(Interval.closed(0, 10), [1, 2, 3])
    c.sample_points(Interval.closed(0, 2), min_step=pos("h") + 1)
    for e in logged("next"):
        same(e[2], 2, "the end of the interval is the limit of every step")
        same(e[1], pos("h") + 1, "the step asked for is the step of every step")


def c23_from_position():
    """C10"""
    s = Src("s")
    x, h = num("x"), pos("h")
    y = s.y(x)
    e = []
    if y is not None:
        e = [(x, y)]
        x1 = s.x_next(x, min_step=h)
        if x1 is not None:
            y1 = s.y(x1)
            if y1 is not None:
                e = [(x, y), (x1, y1)]
    same(s.sample_points_from_x(x, 2, min_step=h), e, "two samples forward, as far as there are values")


def c23_from_position_back():
    """C10"""
    s = Src("s")
    x, h = num("x"), pos("h")
    y = s.y(x)
    e = []
    if y is not None:
        e = [(x, y)]
        x1 = s.x_previous(x, min_step=h)
        if x1 is not None:
            y1 = s.y(x1)
            if y1 is not None:
                e = [(x, y), (x1, y1)]
    same(s.sample_points_from_x(x, 2, backward=True, min_step=h), e, "two samples backward, as far as there are values")
    same(s.sample_points_from_x(x, -2, min_step=h), e, "a negative count steps backward")


def c23_from_position_open():
    """C10"""
    s = Src("s")
    x, h = num("x"), pos("h")
    e = []
    x1 = s.x_next(x, min_step=h)
    if x1 is not None:
        y1 = s.y(x1)
        if y1 is not None:
            e = [(x1, y1)]
    same(s.sample_points_from_x(x, 1, open=True, min_step=h), e, "the position itself is left out when open")
    b = []
    x0 = s.x_previous(x, min_step=h)
    if x0 is not None:
        y0 = s.y(x0)
        if y0 is not None:
            b = [(x0, y0)]
    same(s.sample_points_from_x(x, 1, open=True, backward=True, min_step=h), b, "the position itself is left out when open, backward")
    same(s.sample_points_from_x(x, -1, open=True, backward=True, min_step=h), e, "twice backward is forward")


def c23_from_points():
    ps = [(i, num("v%d" % i)) for i in range(5)]
    p = Points(ps)
    same(p.sample_points_from_x(0, 3), ps[:3], "as many as asked for")
    same(p.sample_points_from_x(3, 3), ps[3:], "as many as there are")
    same(p.sample_points_from_x(4, 3, backward=True), [ps[4], ps[3], ps[2]], "backward")
    same(p.sample_points_from_x(1, 9, backward=True), [ps[1], ps[0]], "as many as there are, backward")
    same(p.sample_points_from_x(1, 2, open=True), ps[2:4], "open")
    check(p.sample_points_from_x(0, 0) == [], "none")
    check(p.sample_points_from_x(0, 0, open=True) == [], "none, open")
    check(p.sample_points_from_x(None, 2) == [], "none from nowhere")
    check(p.sample_points_from_x(9, 2) == [], "none from outside")


def c23_range():
    """C10"""
    p = Points([(0, maybe("u")), (1, maybe("v")), (2, maybe("w"))])
    r = p.get_range()
    vs = [v for v in [maybe("u"), maybe("v"), maybe("w")] if v is not None]
    if len(vs) == 0:
        check(r.is_empty, "no values, no range")
    else:
        lo, hi = vs[0], vs[0]
        for v in vs:
            if v < lo:
                lo = v
            if v > hi:
                hi = v
        same(r.start, lo, "a range starts at the least value")
        same(r.end, hi, "a range ends at the greatest value")


def c23_range_of_part():
    """C14"""
    p = Points([(0, num("u")), (1, num("v")), (2, num("w"))])
    r = p.get_range(Interval.closed(0, 1))
    if num("u") < num("v"):
        check(r == Interval.closed(num("u"), num("v")), "the range of a part")
    r = p.get_range(domain=Interval.closed(1, 1))
    same(r.start, num("v"), "the range at a point")
    same(r.end, num("v"), "the range at a point ends there")
    c = Bare(Interval.closed(0, 2))
    r = c.get_range(min_step=2)
    u, w = c.y(0), c.y(2)
    same(r.start, u if u < w else w, "the range with a step")
    same(r.end, u if u > w else w, "the range with a step ends")


def c23_range_with_zero():
    """C10"""
    p = Points([(0, 0), (1, num("v"))])
    r = p.get_range()
    v = num("v")
    same(r.start, v if v < 0 else 0, "zero is a value of the range")
    same(r.end, v if v > 0 else 0, "zero is a value of the range's end")


# -------------------------------------------------------- minimise and maximise


class Slopes(Curve):
    """unknown values and slopes"""

    def get_domain(self):
        return Interval.infinite()

    def y(self, x):
        log("y", x)
        return napp("slopes.y", x)

    def d_y(self, x, forward=False, min_step=None, limit=None):
        return napp("slopes.forward", x) if forward else napp("slopes.backward", x)

    def x_next(self, x, min_step=None, limit=None):
        return app("slopes.next", x, min_step)

    def x_previous(self, x, min_step=None, limit=None):
        return app("slopes.previous", x, min_step)


def one_move(x, search, value, left, right, forward, backward, what):
    """left and right descend towards the search: negative right or positive left"""
    if value is None:
        r = search()
        check(r is None, what + ": no value, nothing to search from")
    elif left is None and right is None:
        r = search()
        check(r == x, what + ": a lonely value is where it ends")
    elif left is None:
        down = right < 0
        up = right > 0
        r = search()
        if down:
            check(r == forward, what + ": downhill from the start")
        elif up:
            check(r is None, what + ": sloping into nothing before the start")
        else:
            check(r is not None, what + ": flat from the start")
    elif right is None:
        down = left > 0
        up = left < 0
        r = search()
        if down:
            check(r == backward, what + ": downhill from the end")
        elif up:
            check(r is None, what + ": sloping into nothing after the end")
        else:
            check(r is not None, what + ": flat to the end")
    elif left <= 0 and right >= 0:
        r = search()
        check(r == x, what + ": no slope descends, it ends here")
    elif left > 0 and right < 0:
        r = search()
        check(r == forward or r == backward, what + ": from the top either way")
        if left > -right:
            check(r == backward, what + ": the steeper way")
        if left < -right:
            check(r == forward, what + ": the steeper way")
    elif right < 0:
        r = search()
        check(r == forward, what + ": downhill forward")
    else:
        r = search()
        check(r == backward, what + ": downhill backward")


def negated(v):
    return None if v is None else -v


def c24_minimum_move():
    """C10"""
    c = Slopes()
    x, h = num("x"), pos("h")
    l, r = c.d_y(x), c.d_y(x, forward=True)
    one_move(x, lambda: c.minimise(x, step=h, max_iterations=1), c.y(x), l, r, x + h, x - h, "minimise by a step")


def c24_maximum_move():
    """C10"""
    c = Slopes()
    x, h = num("x"), pos("h")
    l, r = negated(c.d_y(x)), negated(c.d_y(x, forward=True))
    one_move(x, lambda: c.maximise(x, step=h, max_iterations=1), c.y(x), l, r, x + h, x - h, "maximise by a step")


def c24_minimum_own_step():
    """C14"""
    c = Slopes()
    x, h = num("x"), pos("h")
    l, r = c.d_y(x), c.d_y(x, forward=True)
    one_move(x, lambda: c.minimise(x, min_step=h, max_iterations=1), c.y(x), l, r, c.x_next(x, min_step=h), c.x_previous(x, min_step=h), "minimise by own steps")


def c24_maximum_own_step():
    """C14"""
    c = Slopes()
    x, h = num("x"), pos("h")
    l, r = negated(c.d_y(x)), negated(c.d_y(x, forward=True))
    one_move(x, lambda: c.maximise(x, min_step=h, max_iterations=1), c.y(x), l, r, c.x_next(x, min_step=h), c.x_previous(x, min_step=h), "maximise by own steps")


def c24_moves_are_bounded():
    c = Slopes()
    for n in [0, 1, 2]:
        forget_log()
        c.minimise(0, step=1, max_iterations=n)
        check(len(logged("y")) <= n, "no more positions are tried than allowed")


def c24_moves_up_are_bounded():
    c = Slopes()
    for n in [0, 1, 2]:
        forget_log()
        c.maximise(0, step=1, max_iterations=n)
        check(len(logged("y")) <= n, "no more positions are tried than allowed")


def c24_value_lost():
    """C10: a step to where there is no value ends at the last one with a value"""
    c = Slopes()
    x, h = num("x"), pos("h")
    assume(c.y(x) is not None)
    if c.d_y(x) is not None and c.d_y(x, forward=True) is not None:
        if c.d_y(x) < 0 and c.d_y(x, forward=True) < 0:
            if c.y(x + h) is None:
                same(c.minimise(x, step=h, max_iterations=2), x, "the last position with a value")
        if c.d_y(x) > 0 and c.d_y(x, forward=True) > 0:
            if c.y(x + h) is None:
                same(c.maximise(x, step=h, max_iterations=2), x, "the last position with a value, uphill")


def c24_continues():
    """the second move goes on from where the first ended"""
    c = Slopes()
    h = pos("h")
    assume(c.y(0) is not None and c.d_y(0) is not None and c.d_y(0, forward=True) is not None)
    assume(c.d_y(0) < 0 and c.d_y(0, forward=True) < 0)
    l, r = c.d_y(h), c.d_y(h, forward=True)
    if c.y(h) is not None:
        one_move(h, lambda: c.minimise(0, step=h, max_iterations=2), c.y(h), l, r, h + h, 0, "minimise, second move")


def c24_continues_up():
    c = Slopes()
    h = pos("h")
    assume(c.y(0) is not None and c.d_y(0) is not None and c.d_y(0, forward=True) is not None)
    assume(c.d_y(0) > 0 and c.d_y(0, forward=True) > 0)
    l, r = negated(c.d_y(h)), negated(c.d_y(h, forward=True))
    if c.y(h) is not None:
        one_move(h, lambda: c.maximise(0, step=h, max_iterations=2), c.y(h), l, r, h + h, 0, "maximise, second move")


def local_minimum(p, n, x, start):
    if x is not None:
        y = p.y(x)
        check(y is not None, "a minimum is a position of the curve")
        check(y <= p.y(start), "only downhill")
        if x > 0:
            check(p.y(x - 1) >= y, "not descending to the left")
        if x < n - 1:
            check(p.y(x + 1) >= y, "not descending to the right")


def local_maximum(p, n, x, start):
    if x is not None:
        y = p.y(x)
        check(y is not None, "a maximum is a position of the curve")
        check(y >= p.y(start), "only uphill")
        if x > 0:
            check(p.y(x - 1) <= y, "not ascending to the left")
        if x < n - 1:
            check(p.y(x + 1) <= y, "not ascending to the right")


def valley():
    return Points([(0, num("v0")), (1, num("v1")), (2, num("v2"))])


def c24_points_from_middle():
    p = valley()
    local_minimum(p, 3, p.minimise(1), 1)


def c24_points_from_middle_up():
    p = valley()
    local_maximum(p, 3, p.maximise(1), 1)


def c24_points_from_end():
    p = valley()
    x = p.minimise(2)
    local_minimum(p, 3, x, 2)
    if num("v2") > num("v1") and num("v0") >= num("v1"):
        check(x is not None, "there is a way down from the end")


def c24_points_from_start():
    p = valley()
    x = p.minimise(0)
    local_minimum(p, 3, x, 0)
    if num("v0") > num("v1") and num("v1") < num("v2"):
        same(x, 1, "the bottom of the valley")


def c24_points_from_start_up():
    p = valley()
    x = p.maximise(0)
    local_maximum(p, 3, x, 0)
    if num("v0") < num("v1") and num("v1") > num("v2"):
        same(x, 1, "the top of the hill")


def c24_shapes():
    p = Points([(0, 5), (1, 3), (2, 1), (3, 4), (4, 6), (5, 0)])
    for x in [0, 1, 2, 3]:
        same(p.minimise(x), 2, "the bottom")
    same(p.maximise(2), 4, "the top, by the steeper way")
    same(p.maximise(3), 4, "the top")
    same(p.minimise(0, max_iterations=1), 1, "one move only")
    same(p.minimise(0, step=2), 2, "by the step given")


def c24_long_step():
    """the curve's own steps end where it does"""
    p = Points([(0, 5), (1, 3), (2, 1), (3, 0)])
    x = p.minimise(0, min_step=2)
    check(x == 2 or x == 3, "down to where the steps end")
    x = p.maximise(3, min_step=2)
    check(x == 0 or x == 1, "up to where the steps end")
