"""Indicators do not depend on the unit or the origin positions are measured in,
nor on where they were asked for first; and they step among their source's positions."""
from curvepy import Curve, Points, Extremas, Trend, Constant, Line, Piecewise
from intervalpy import Interval

PREVIOUS = Points.interpolation.previous


def spaced(n, x0, h, **kw):
    return Points([(x0 + h * i, num("y%d" % i)) for i in range(n)], **kw)


def alike(make, n, factor=None, units=((-3, 3), (0, 0.5), (-4, 2)), positions=None, **kw):
    """make(points, unit): the same at the i-th point, whatever the unit"""
    ref = make(spaced(n, 0, 1, **kw), 1)
    for x0, h in units:
        c = make(spaced(n, x0, h, **kw), h)
        for i in (positions or range(n)):
            a, b = c.y(x0 + h * i), ref.y(i)
            if a is None or b is None:
                check(a is None and b is None, "present at the same points in every unit")
            elif factor is None:
                same(a, b, "the same in every unit")
            else:
                same(a, b * factor(h), "in proportion in every unit")


def c13_units_ema():
    """C14"""
    alike(lambda p, h: p.ema(0.25), 4)


def c13_units_ema_degree():
    """C14"""
    alike(lambda p, h: p.ema(3), 4)


def c13_units_ema_period():
    """C14"""
    alike(lambda p, h: p.ema(2 * h, is_period=True), 4)


def c13_units_sma():
    """C14"""
    alike(lambda p, h: p.sma(3), 5)


def c13_units_sma_period():
    """C14"""
    alike(lambda p, h: p.sma(2 * h, is_period=True), 5)


def c13_units_smma():
    """C14"""
    alike(lambda p, h: p.smma(2), 4)


def c13_units_rsi():
    """C14"""
    p = Points([(3 * i - 3, (2, 4, 3, 7, 5, 9)[i]) for i in range(6)])
    q = Points([(i, (2, 4, 3, 7, 5, 9)[i]) for i in range(6)])
    a, b = p.rsi(2), q.rsi(2)
    for i in range(6):
        u, v = a.y(3 * i - 3), b.y(i)
        if u is None or v is None:
            check(u is None and v is None, "present at the same points in every unit")
        else:
            same(u, v, "the same in every unit")


def c13_units_trailing():
    """C14"""
    alike(lambda p, h: p.trailing_max(2), 4)


def c13_units_trailing_min():
    """C14"""
    alike(lambda p, h: p.trailing_min(2), 4)


def c13_units_trailing_period():
    """C14"""
    alike(lambda p, h: p.trailing_max(2 * h, is_period=True), 4)


def c13_units_trailing_min_period():
    """C14"""
    alike(lambda p, h: p.trailing_min(2 * h, is_period=True), 3)


def c26_units_map():
    """C14"""
    alike(lambda p, h: p.accumulator_map(lambda ys: sum(ys), 3), 5)
    alike(lambda p, h: p.accumulator_map(lambda ys: sum(ys), 2 * h, is_period=True), 5)


def c26_units_integral():
    """C14"""
    alike(lambda p, h: p.integral(), 4, factor=lambda h: h)
    alike(lambda p, h: p.integral(const=0, interpolation=PREVIOUS), 4, factor=lambda h: h)


def c34_units_differential():
    """C14"""
    alike(lambda p, h: p.differential(), 4, factor=lambda h: 1 / h)
    alike(lambda p, h: p.differential(forward=True), 4, factor=lambda h: 1 / h)


def c34_units_steps():
    """C14: of a curve of previous values"""
    alike(lambda p, h: p.differential(), 3, factor=lambda h: 1 / h, interpolation=PREVIOUS)


def c13_units_harmonic():
    """C14"""
    for k in range(2):
        alike(lambda p, h: p.harmonic_smas(2, 2)[k], 7, units=[(-3, 3)], positions=[0, 1, 2, 5, 6])


def c13_units_centered():
    """C14"""
    alike(lambda p, h: p.centered_macs(2, 2)[0], 7, units=[(-3, 3)], positions=[1, 5, 6])


def c30_units():
    """C13"""
    hs = [1, -2, 3, -4, 2, -1]
    p = Extremas(Points([(3 * i - 6, hs[i]) for i in range(6)]), Constant(0))
    q = Extremas(Points([(i, hs[i]) for i in range(6)]), Constant(0))
    for i in [0, 0.5, 1, 2, 3, 3.5, 4]:
        u, v = p.y(3 * i - 6), q.y(i)
        if u is None or v is None:
            check(u is None and v is None, "present at the same positions in every unit")
        else:
            same(u, v, "the same in every unit")


# --------------------------------------------------- asked for at the first point alone
def first(make):
    for change in [lambda p: p.replace((0, num("v"))), lambda p: p.set([(0, num("v")), (1, num("w"))])]:
        p = spaced(3, 0, 1)
        c = make(p)
        c.y(0)
        change(p)
        d = make(p)
        for x in [0, 1]:
            same(c.y(x), d.y(x), "as if computed from scratch")
    p = spaced(3, 0, 1)
    c = make(p)
    c.y(0)
    p.replace((0, num("v")))
    p.replace((0, num("w")))
    c.y(0)
    p.replace((0, num("u")))
    d = make(p)
    for x in [1, 0]:
        same(c.y(x), d.y(x), "as if computed from scratch")


def stepped(make):
    """the update starts exactly where was asked for last"""
    for i in [0, 1, 2]:
        p = spaced(3, 0, 1, interpolation=PREVIOUS)
        c = make(p)
        c.y(i)
        p.replace((i, num("v")))
        d = make(p)
        for x in [i, 2, 0]:
            same(c.y(x), d.y(x), "as if computed from scratch")


def c08_first_ema():
    first(lambda p: p.ema(0.5))
    stepped(lambda p: p.ema(0.5))


def c08_first_integral():
    """C26"""
    first(lambda p: p.integral())


def c08_first_stepped_integral():
    """C26"""
    stepped(lambda p: p.integral())


def c08_first_trailing():
    first(lambda p: p.trailing_max(2))


def c08_first_stepped_trailing():
    stepped(lambda p: p.trailing_min(2))


def c08_first_map():
    """C26"""
    first(lambda p: p.accumulator_map(lambda ys: sum(ys), 1))
    stepped(lambda p: p.accumulator_map(lambda ys: sum(ys), 2))


def c08_first_sma():
    first(lambda p: p.sma(1))
    stepped(lambda p: p.sma(2))


def c08_first_smma():
    first(lambda p: p.smma(1))


# --------------------------------------------------- steps
def steps(make, back=False, n=4, ends=True):
    """C28: from anywhere, a step leads on, and inside"""
    p = Points([(0, num("y0")), (1, num("y1")), (4, num("y2")), (6, num("y3"))], uniform=False)
    c = make(p)
    d = c.domain
    x = num("x")
    if back:
        assume(x > d.start and x <= d.end)
        n = c.x_previous(x)
        if n is not None:
            check(n < x and d.contains(n), "a step backward leads to a smaller position of the domain")
    else:
        assume(x >= d.start and x < d.end)
        n = c.x_next(x)
        if n is not None:
            check(n > x and d.contains(n), "a step forward leads to a greater position of the domain")


def c28_next_map():
    steps(lambda p: p.map(lambda y: y, skip_none=True))
    steps(lambda p: p + p)
    steps(lambda p: p + 1)


def c28_previous_map():
    steps(lambda p: p.map(lambda y: y, skip_none=True), True)
    steps(lambda p: p + p, True)
    steps(lambda p: p + 1, True)


def c28_next_ema():
    steps(lambda p: p.ema(0.5, uniform=False))


def c28_previous_ema():
    steps(lambda p: p.ema(0.5, uniform=False), True)


def c28_next_sma():
    steps(lambda p: p.sma(2, uniform=False))


def c28_previous_sma():
    steps(lambda p: p.sma(2, uniform=False), True)


def c28_next_integral():
    steps(lambda p: p.integral(uniform=False))


def c28_previous_integral():
    steps(lambda p: p.integral(uniform=False), True)


def c28_next_trailing():
    steps(lambda p: p.trailing_max(2, uniform=False))


def c28_previous_trailing():
    steps(lambda p: p.trailing_max(2, uniform=False), True)


def c28_next_differential():
    steps(lambda p: p.differential())


def c28_previous_differential():
    steps(lambda p: p.differential(), True)


def c28_next_offset():
    steps(lambda p: p.offset(2))


def c28_previous_offset():
    steps(lambda p: p.offset(2), True)


def c28_next_subset():
    steps(lambda p: p.subset(Interval(0.5, 5)))


def c28_previous_subset():
    steps(lambda p: p.subset(Interval(0.5, 5)), True)


def c28_next_pieces():
    steps(lambda p: Piecewise([p, Constant(3)], [Interval(0, 2, end_open=True), Interval(2, 5)]))


def c28_previous_pieces():
    steps(lambda p: Piecewise([p, Constant(3)], [Interval(0, 2, end_open=True), Interval(2, 5)]), True)


def c28_next_extension():
    steps(lambda p: p.extension("tangent", start=True))


def c28_previous_extension():
    steps(lambda p: p.extension("tangent", start=True), True)


def c28_next_first():
    steps(lambda p: Curve.first([p, Constant(1)]))
    steps(lambda p: Curve.min([p, Constant(1)]))


def c28_previous_first():
    steps(lambda p: Curve.first([p, Constant(1)]), True)
    steps(lambda p: Curve.min([p, Constant(1)]), True)


def extremal(back):
    hs = [1, -2, 3, -4, 2, -1]
    e = Extremas(Points([(2 * i, hs[i]) for i in range(6)]), Constant(0))
    x = num("x")
    assume(x > 0 and x < 10)
    if back:
        n = e.x_previous(x)
        if n is not None:
            check(n < x and e.domain.contains(n), "a step backward leads to a smaller position of the domain")
    else:
        n = e.x_next(x)
        if n is not None:
            check(n > x and e.domain.contains(n), "a step forward leads to a greater position of the domain")


def c28_next_extremas():
    extremal(False)


def c28_previous_extremas():
    extremal(True)


# --------------------------------------------------- samples
def sampled(make, fixed=False):
    """C23: samples of any part of a curve over points"""
    p = Points([(0, num("y0")), (1, num("y1")), (4, num("y2")), (6, num("y3"))], uniform=False)
    c = make(p)
    a, b = (0.5 if fixed else num("a")), num("b")
    assume(a < b and a > 0 and a < 1 and b < 5)
    for i in [Interval.closed(a, b), Interval.open_closed(a, b), Interval.closed_open(a, b), Interval.open(a, b)]:
        ps = c.sample_points(i)
        for k in range(len(ps)):
            check(i.contains(ps[k][0]), "a sample lies inside the interval")
            same(ps[k][1], c.y(ps[k][0]), "a sample lies on the curve")
            if k > 0:
                check(ps[k - 1][0] < ps[k][0], "samples ascend")
        xs = [q[0] for q in ps]
        if not i.start_open:
            check(a in xs, "a closed start is sampled")
        if not i.end_open:
            check(b in xs, "a closed end is sampled")
        for x in [1, 4]:
            if a < x - 0.01 and x < b - 0.01:
                check(x in xs, "the positions in between are sampled")


def c23_part_map():
    sampled(lambda p: p.map(lambda y: y, skip_none=True))


def c23_part_sum():
    sampled(lambda p: p + 1)


def c23_part_ema():
    sampled(lambda p: p.ema(0.5, uniform=False))


def c23_part_integral():
    sampled(lambda p: p.integral(uniform=False), True)


def c23_part_first():
    sampled(lambda p: Curve.first([p, 5]), True)


def c23_part_differential():
    sampled(lambda p: p.differential(), True)


def c23_part_trailing():
    sampled(lambda p: p.trailing_max(2, uniform=False), True)


def c23_part_extension():
    sampled(lambda p: p.extension("constant", start=True), True)


def c23_part_offset():
    p = Points([(-2, num("y0")), (-1, num("y1")), (2, num("y2")), (4, num("y3"))], uniform=False)
    sampled(lambda q: p.offset(2))


def c23_part_pieces():
    sampled(lambda p: Piecewise([p, p.map(lambda y: -y)], [Interval.closed_open(0, 2), Interval.closed(2, 6)]))
