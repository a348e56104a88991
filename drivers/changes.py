"""C01, C02, C03: changes of the curves that hold their own state."""
from _driver_common import Src, bracketed, watch
from curvepy import Curve, Constant, Line, Points, Quotes
from curvepy.sin import Sin
from intervalpy import Interval
import math


def uniform(n, **kw):
    return Points([(i, num("y%d" % i)) for i in range(n)], **kw)


def irregular(**kw):
    return Points([(0, num("y0")), (1, num("y1")), (3, num("y3")), (6, num("y6"))], uniform=False, **kw)


# ------------------------------------------------------------------ C01 / C03


def c01_points_append():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.append((3, num("v"))), "Points.append")


def c01_points_append_list():
    """C03"""
    p = uniform(2)
    bracketed(p, num("x"), lambda: p.append_list([(2, num("v")), (3, num("w"))]), "Points.append_list")


def c01_points_append_to_one():
    """C03"""
    p = uniform(1)
    bracketed(p, num("x"), lambda: p.append((1, num("v"))), "Points.append to a single point")


def c01_points_append_to_none():
    """C03"""
    p = Points([])
    bracketed(p, num("x"), lambda: p.append((1, num("v"))), "Points.append to no points")


def c01_points_append_irregular():
    """C03"""
    p = Points([(0, num("y0")), (1, num("y1"))], uniform=False)
    t = num("t")
    assume(t > 1)
    bracketed(p, num("x"), lambda: p.append((t, num("v"))), "Points.append to irregular points")


def c01_points_append_previous():
    """C03"""
    p = uniform(2, interpolation=Points.interpolation.previous)
    bracketed(p, num("x"), lambda: p.append((2, num("v"))), "Points.append, previous interpolation")


def c01_points_append_next():
    """C03"""
    p = uniform(2, interpolation=Points.interpolation.next)
    bracketed(p, num("x"), lambda: p.append((2, num("v"))), "Points.append, next interpolation")


def c01_points_set():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.set([(2, num("v")), (3, num("w")), (4, num("z"))]), "Points.set")


def c01_points_set_apart():
    """C03"""
    p = uniform(2)
    bracketed(p, num("x"), lambda: p.set([(5, num("v")), (6, num("w"))]), "Points.set elsewhere")


def c01_points_clear():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.set([]), "Points.set to no points")


def c01_points_reset():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.reset(), "Points.reset")


def whole(domain, what, **kw):
    p = Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))], **kw)
    a = []
    p.add_observer(begin=lambda: a.append((p.domain, p.sample_points(), p.x_next(0), p.y(2))))
    bracketed(p, num("x"), lambda: p.reset(domain), what)
    check(len(a) == 1, what + ": announced")
    for d, ps, n, y in a:
        check(d == Interval.closed(0, 2) and n == 1, what + ": the curve as it was when it is announced")
        same(ps, [(0, num("y0")), (1, num("y1")), (2, num("y2"))], what + ": the points as they were when it is announced")
        same(y, num("y2"), what + ": the values as they were when it is announced")
    check(p.domain.is_empty and p.sample_points() == [], what + ": nothing is left")


def c01_points_reset_whole():
    """C03 C02"""
    whole(Interval.closed(0, 2), "Points.reset of its domain")


def c01_points_reset_more():
    """C03 C02"""
    whole(Interval.closed(-5, 9), "Points.reset of more than its domain", uniform=False)


def c01_points_reset_infinite():
    """C03 C02"""
    whole(Interval.infinite(), "Points.reset of everything", interpolation=Points.interpolation.previous)


def c01_points_reset_tail():
    """C03"""
    p = uniform(4)
    bracketed(p, num("x"), lambda: p.reset(Interval.gte(2)), "Points.reset of a tail")


def c01_points_reset_open_tail():
    """C03"""
    p = uniform(4)
    bracketed(p, num("x"), lambda: p.reset(Interval.gt(1)), "Points.reset of an open tail")


def c01_points_reset_head():
    """C03"""
    p = uniform(4)
    bracketed(p, num("x"), lambda: p.reset(Interval.lte(1)), "Points.reset of a head")


def c01_points_reset_middle():
    """C03"""
    p = irregular()
    bracketed(p, num("x"), lambda: p.reset(Interval.closed(1, 3)), "Points.reset of a middle part")


def c01_points_replace():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.replace((1, num("v"))), "Points.replace of an inner point")


def c01_points_replace_first():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.replace((0, num("v"))), "Points.replace of the first point")


def c01_points_replace_last():
    """C03"""
    p = uniform(3)
    bracketed(p, num("x"), lambda: p.replace((2, num("v"))), "Points.replace of the last point")


def c01_points_replace_previous():
    """C03"""
    p = uniform(3, interpolation=Points.interpolation.previous)
    bracketed(p, num("x"), lambda: p.replace((1, num("v"))), "Points.replace, previous interpolation")


def c01_points_replace_next():
    """C03"""
    p = uniform(3, interpolation=Points.interpolation.next)
    bracketed(p, num("x"), lambda: p.replace((1, num("v"))), "Points.replace, next interpolation")


def c01_points_insert():
    """C03"""
    p = irregular()
    t = num("t")
    assume(t > 1)
    assume(t < 3)
    bracketed(p, num("x"), lambda: p.replace((t, num("v"))), "Points.replace between points")


def c01_points_replace_irregular():
    """C03"""
    p = irregular()
    bracketed(p, num("x"), lambda: p.replace((3, num("v"))), "Points.replace, irregular points")


def c01_points_replace_or_append():
    """C03"""
    p = uniform(2)
    bracketed(p, num("x"), lambda: p.replace((2, num("v")), or_append=True), "Points.replace appending")


def c01_constant():
    """C03"""
    c = Constant(num("k"))

    def change():
        c.value = num("v")
    bracketed(c, num("x"), change, "Constant.value")


def c01_constant_missing():
    """C03 C10 C05: from and to a missing value, zero being a value"""
    for u, v in [(None, 0), (0, None), (None, 1), (1, None), (0, 1), (1, 0), (0.5, 0), (None, False)]:
        c = Constant(u)
        e = Constant(0) + c
        check(e.y(3) == u, "the value before")
        forget_log()
        w = watch(c, "c")

        def change():
            c.value = v
        bracketed(c, num("x"), change, "Constant.value with a missing value")
        check(len(logged("c.begin")) == 1 and len(logged("c.end")) == 1, "a change from and to a missing value is announced once")
        check(c.value is v and c.y(3) is v, "the value set")
        check(e.y(3) is None if v is None else e.y(3) == v, "what is made of it follows")


def c01_constant_on_a_domain():
    """C03"""
    c = Constant(num("k"), domain=ival("D"))

    def change():
        c.value = num("v")
    bracketed(c, num("x"), change, "Constant.value on a domain")


def c01_line_slope():
    """C03"""
    c = Line(const=num("k"), slope=num("m"))
    bracketed(c, num("x"), lambda: c.set(const=num("k2"), slope=num("m2")), "Line.set")


def c01_line_points():
    """C03"""
    c = Line(p1=(0, num("k")), p2=(1, num("m")))
    bracketed(c, num("x"), lambda: c.set(p1=(2, num("k2")), p2=(5, num("m2"))), "Line.set by points")


def c01_line_moved():
    """C03: a change of any one parameter is a change"""
    c = Line(p1=(num("a"), num("b")), slope=num("m"))
    bracketed(c, num("x"), lambda: c.set(p1=(num("a2"), num("b")), slope=num("m")), "Line.set of the reference position")
    d = Line(p1=(num("a"), num("b")), slope=num("m"))
    bracketed(d, num("x"), lambda: d.set(p1=(num("a"), num("b2")), slope=num("m")), "Line.set of the reference value")
    e = Line(p1=(num("a"), num("b")), slope=num("m"))
    bracketed(e, num("x"), lambda: e.set(p1=(num("a"), num("b")), slope=num("m2")), "Line.set of the slope")


def c01_sin():
    """C03"""
    c = Sin(amplitude=num("a"), period=pos("p"), phase=num("f"))
    bracketed(c, num("x"), lambda: c.set(amplitude=num("a2"), period=pos("p2"), phase=num("f2")), "Sin.set")


def quote(i, tag=""):
    return [i * 3600, [num("o%d%s" % (i, tag)), num("h%d%s" % (i, tag)), num("l%d%s" % (i, tag)), num("c%d%s" % (i, tag)), num("v%d%s" % (i, tag))]]


def c01_quotes_append():
    """C03 C22"""
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    bracketed(q, num("x"), lambda: q.append(quote(2)), "Quotes.append")


def c01_quotes_append_list():
    """C03 C22"""
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    bracketed(q, num("x"), lambda: q.append_list([quote(2), quote(3)]), "Quotes.append_list")


def c01_quotes_set():
    """C03 C22"""
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    bracketed(q, num("x"), lambda: q.set([quote(1, "n"), quote(2, "n")]), "Quotes.set")


def c01_quotes_first():
    """C03 C22"""
    q = Quotes("1h")
    bracketed(q, num("x"), lambda: q.append(quote(2)), "Quotes.append to no quotes")


# ------------------------------------------------------------------------ C02


def rejected(curve, x, change, what):
    """a rejected change leaves no trace: no value, no domain, no notice, and
    no update left open"""
    old = curve.y(x)
    dom = curve.domain
    watch(curve, "w")
    failed = False
    try:
        change()
    except Exception:
        failed = True
    check(failed, what + ": is refused")
    if not failed:
        return
    same(curve.y(x), old, what + ": values unchanged")
    check(curve.domain == dom, what + ": domain unchanged")
    check(not curve.is_updating, what + ": no update left open")
    b = len(logged("w.begin"))
    e = len(logged("w.end"))
    check(b == e, what + ": every begin has its end")
    check(b == 0, what + ": nothing announced")


def c02_append_out_of_order():
    p = uniform(3)
    t = num("t")
    assume(t <= 2)
    rejected(p, num("x"), lambda: p.append((t, num("v"))), "appending a point that is not after the last")


def c02_append_irregular_step():
    p = uniform(3)
    t = num("t")
    assume(t > 2)
    assume(t != 3)
    rejected(p, num("x"), lambda: p.append((t, num("v"))), "appending off the step of uniform points")


def c02_append_list_irregular():
    p = uniform(3)
    rejected(p, num("x"), lambda: p.append_list([(3, num("v")), (5, num("w"))]), "appending a list off the step of uniform points")


def c02_append_out_of_order_irregular():
    p = irregular()
    t = num("t")
    assume(t <= 6)
    rejected(p, num("x"), lambda: p.append((t, num("v"))), "appending out of order to irregular points")


def c02_replace_outside():
    p = uniform(3)
    t = num("t")
    assume(t < 0 or t > 2)
    rejected(p, num("x"), lambda: p.replace((t, num("v"))), "replacing outside the points")


def c02_replace_between():
    p = uniform(3)
    t = num("t")
    assume(t > 0)
    assume(t < 2)
    assume(t != 1)
    rejected(p, num("x"), lambda: p.replace((t, num("v"))), "replacing between uniform points")


def c02_replace_or_append_rejected():
    p = uniform(3)
    rejected(p, num("x"), lambda: p.replace((4, num("v")), or_append=True), "appending off the step through replace")


def c02_set_irregular():
    p = uniform(3)
    rejected(p, num("x"), lambda: p.set([(0, num("v")), (1, num("w")), (5, num("z"))]), "setting irregular points where uniform ones are required")


def c02_line():
    c = Line(const=num("k"), slope=num("m"))
    rejected(c, num("x"), lambda: c.set(const=num("k2")), "a line without a slope")
    d = Line(const=num("k"), slope=num("m"))
    rejected(d, num("x"), lambda: d.set(slope=num("m2")), "a line without a reference point")


def c02_line_without_slope():
    d = Line(const=num("k"), slope=num("m"))
    rejected(d, num("x"), lambda: d.set(p1=(1, 2)), "a line through one point without a slope")


def c02_sin():
    c = Sin(amplitude=num("a"), period=pos("p"), phase=num("f"))
    rejected(c, num("x"), lambda: c.set(period=pos("p2")), "a sine without an amplitude")


def c02_sin_without_period():
    c = Sin(amplitude=num("a"), period=pos("p"), phase=num("f"))
    rejected(c, num("x"), lambda: c.set(amplitude=num("a2")), "a sine without a period")


def c02_sin_without_phase():
    c = Sin(amplitude=num("a"), period=pos("p"), phase=num("f"))
    rejected(c, num("x"), lambda: c.set(amplitude=num("a2"), period=pos("p2"), phase=None), "a sine without a phase")


def c02_quotes_append():
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    rejected(q, num("x"), lambda: q.append(quote(1, "n")), "appending a quote that is not after the last")


def c02_quotes_gap():
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    assume(q.duration.is_uniform)
    rejected(q, num("x"), lambda: q.append(quote(3)), "appending a quote after a gap")


def c02_quotes_set():
    q = Quotes("1h", quote_points=[quote(0), quote(1)])
    assume(q.duration.is_uniform)
    rejected(q, num("x"), lambda: q.set([quote(2), quote(3), quote(5)]), "setting quotes with a gap")


def c02_derived_unaffected():
    """C05: nor does a rejected change reach the curves derived from it"""
    p = uniform(3)
    m = p.map(lambda y: 2 * y, skip_none=True)
    s = p + 1
    watch(m, "m")
    watch(s, "s")
    x = num("x")
    u = m.y(x)
    v = s.y(x)
    failed = False
    try:
        p.append((7, num("v")))
    except Exception:
        failed = True
    check(failed, "appending off the step: is refused")
    same(m.y(x), u, "a rejected append leaves a map unchanged")
    same(s.y(x), v, "a rejected append leaves a sum unchanged")
    check(len(logged("m.begin")) == 0 and len(logged("s.begin")) == 0, "a rejected append announces nothing downstream")
    p.append((3, num("w")))
    check(len(logged("m.begin")) == 1 and len(logged("m.end")) == 1, "the next accepted append is announced and reported downstream")
    check(len(logged("s.begin")) == 1 and len(logged("s.end")) == 1, "the next accepted append is announced and reported downstream")


def c02_next_change_is_complete():
    """C01: a change after a rejected one is announced and reported as usual"""
    p = uniform(3)
    try:
        p.append((7, num("v")))
    except Exception:
        pass
    bracketed(p, num("x"), lambda: p.append((3, num("w"))), "Points.append after a rejected append")


def refused_then(points, bad, good, after, what, **kw):
    p = Points(points, **kw)
    s = Points(points, **kw)
    x = num("x")
    for i in range(2):
        failed = False
        try:
            bad(p)
        except Exception:
            failed = True
        check(failed, what + ": is refused, each time")
        same(p.y(x), s.y(x), what + ": values unchanged")
        check(p.domain == s.domain, what + ": domain unchanged")
        check(p.is_uniform == s.is_uniform, what + ": as uniform as before")
    good(p)
    f = Points(after, **kw)
    same(p.y(x), f.y(x), what + ": a change made afterwards has its values")
    check(p.domain == f.domain, what + ": and its domain")
    check(p.is_uniform == f.is_uniform, what + ": and is as uniform")


def c02_then_append_to_one():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([(0, a)], lambda p: p.append_list([(1, b), (3, c)]), lambda p: p.append_list([(2, b), (4, c)]),
                 [(0, a), (2, b), (4, c)], "appending irregular points to one")


def c02_then_append_before_one():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([(0, a)], lambda p: p.append_list([(0, b), (1, c)]), lambda p: p.append((3, b)),
                 [(0, a), (3, b)], "appending out of order to one")


def c02_then_set_from_none():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([], lambda p: p.append_list([(0, a), (1, b), (3, c)]), lambda p: p.append_list([(0, a), (2, b), (4, c)]),
                 [(0, a), (2, b), (4, c)], "appending irregular points to none")


def c02_then_set():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([(0, a), (1, b)], lambda p: p.set([(0, a), (2, b), (5, c)]), lambda p: p.append((2, c)),
                 [(0, a), (1, b), (2, c)], "setting irregular points")


def c02_then_append_irregular():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([(0, a), (1, b)], lambda p: p.append((1, c)), lambda p: p.append((2, c)),
                 [(0, a), (1, b), (2, c)], "appending out of order", uniform=False)


def c02_then_replace_outside():
    """C16"""
    a, b, c = num("a"), num("b"), num("c")
    refused_then([(0, a), (1, b)], lambda p: p.replace((5, c)), lambda p: p.replace((1, c)),
                 [(0, a), (1, c)], "replacing outside", uniform=False)


def c02_encoder_failure():
    """C22: an encoder that fails rejects the change"""
    def enc(q):
        if q[0] == 7200:
            raise ValueError("bad quote")
        return q
    q = Quotes("1h", quote_points=[quote(0), quote(1)], encoder=enc)
    rejected(q, num("x"), lambda: q.append(quote(2)), "appending a quote the encoder refuses")
