"""C05, C07: derived curves pass on the updates of their sources."""
from _driver_common import Src, watch
from curvepy import (Curve, Constant, Points, Line, Generic, Map, Aggregate, Offset, Piecewise, Scan, Accumulator,
                     AccumulatorMap, EMA, Integral, SMA, Extremas, Trend, Quotes)
from intervalpy import Interval
import math


def relays_same(make, sources, what, tag="w"):
    """whatever the source announces, the derived curve announces"""
    c = make()
    watch(c, tag)
    n = 0
    for s in sources:
        d = ival("d%d" % n)
        s.begin_update(d)
        check(len(logged(tag + ".begin")) == n + 1, what + ": a begin of a source is passed on, once")
        check(len(logged(tag + ".end")) == n, what + ": no end before the source's end")
        check(c.is_updating, what + ": updating while its source is")
        s.end_update(d)
        check(len(logged(tag + ".end")) == n + 1, what + ": an end of a source is passed on, once")
        check(len(logged(tag + ".begin")) == n + 1, what + ": no further begin")
        check(not c.is_updating, what + ": not updating any more")
        if len(logged(tag + ".begin")) == n + 1 and len(logged(tag + ".end")) == n + 1:
            check(logged(tag + ".begin")[n] == (d,), what + ": with the interval of the source")
            check(logged(tag + ".end")[n] == (d,), what + ": with the interval of the source")
        n += 1


def relays_from(make, sources, what):
    """a curve that accumulates its source changes from there on"""
    c = make()
    watch(c, "w")
    n = 0
    for s in sources:
        d = ival("d%d" % n)
        e = Interval(d.start, math.inf, start_open=d.start_open, end_open=True)
        s.begin_update(d)
        check(len(logged("w.begin")) == n + 1, what + ": a begin of a source is passed on, once")
        check(len(logged("w.end")) == n, what + ": no end before the source's end")
        s.end_update(d)
        check(len(logged("w.end")) == n + 1, what + ": an end of a source is passed on, once")
        check(len(logged("w.begin")) == n + 1, what + ": no further begin")
        check(not c.is_updating, what + ": not updating any more")
        if len(logged("w.begin")) == n + 1 and len(logged("w.end")) == n + 1:
            b = logged("w.begin")[n][0]
            check(b.is_superset_of(e), what + ": over everything from the start of the change")
            check(logged("w.end")[n] == (b,), what + ": announced and reported alike")
        n += 1


def c05_map():
    """C01"""
    a = Src("a")
    relays_same(lambda: a.map(lambda y: y), [a, a], "map")


def c05_map_with_x():
    a = Src("a")
    relays_same(lambda: Map(a, lambda x, y: y), [a], "map")


def c05_negated():
    """C11"""
    a = Src("a")
    relays_same(lambda: -a, [a], "-a")


def c05_absolute():
    """C11"""
    a = Src("a")
    relays_same(lambda: abs(a), [a], "abs(a)")


def c05_sum():
    """C11 C01"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: a + b, [a, b, a], "a + b")


def c05_many():
    """C11"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    relays_same(lambda: Curve.add_many([a, b, c]), [c, a, b], "add_many")


def c05_same_twice():
    """C11: a source used twice is one source"""
    a = Src("a")
    relays_same(lambda: a * a, [a], "a * a")


def c05_repeated_sources():
    """C11 C12 C27: each of several sources is listened to, however often another is repeated"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Curve.add_many([a, a, b]), [b, a], "add_many of a repeated curve")
    relays_same(lambda: Curve.max([b, a, b, a]), [a, b], "max of repeated curves", "w2")
    relays_same(lambda: Aggregate([a, a, a, b], tfm=lambda x, ys: ys[0]), [b, a], "aggregate of a repeated curve", "w3")
    relays_same(lambda: Piecewise([a, a, b], [Interval.closed(0, 1), Interval.open_closed(1, 2), Interval.open_closed(2, 3)]), [b, a],
                "piecewise of a repeated curve", "w4")


def c05_scalar():
    a = Src("a")
    relays_same(lambda: 1 / a, [a], "1 / a")


def c05_max():
    """C12"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Curve.max(a, b), [a, b], "max")


def c05_min():
    """C12"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Curve.min(a, b, ignore_empty=True), [a, b], "min")


def c05_first():
    """C12"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Curve.first(a, b), [a, b], "first")


def c05_aggregate():
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Aggregate([a, b], tfm=lambda x, ys: ys[0]), [a, b], "aggregate")


def c05_subset():
    """C27"""
    a = Src("a")
    relays_same(lambda: a.subset(Interval.closed(0, 10)), [a], "subset")


def c05_generic():
    a = Src("a")
    relays_same(lambda: Generic(a), [a], "generic")


def c05_piecewise():
    """C27"""
    a = Src("a")
    b = Src("b")
    relays_same(lambda: Piecewise([a, b], [Interval.closed(0, 1), Interval.open_closed(1, 2)]), [a, b], "piecewise")


def c05_blend():
    """C27"""
    a = Src("a")
    b = Src("b")
    c = a.blend(b, 0, 1)
    watch(c, "w")
    d = ival("d")
    b.begin_update(d)
    check(logged("w.begin") == [(d,)], "blend: announced")
    b.end_update(d)
    check(len(logged("w.end")) >= 1, "blend: reported")
    check(not c.is_updating, "blend: over")


def c05_differential():
    """C13"""
    a = Src("a")
    relays_same(lambda: a.differential(), [a], "differential")


def c05_chain():
    a = Src("a")
    b = Src("b")
    relays_same(lambda: (a.map(lambda y: y) + b).map(lambda y: y), [a, b], "a chain")


def c05_offset():
    """C15 C01"""
    a = Src("a")
    k = num("k")
    c = a.offset(k)
    watch(c, "w")
    n = 0
    for d in [Interval.closed(0, 10), Interval.open(1, 2), Interval.closed_open(3, 4), Interval.infinite(), Interval.gte(5), Interval.lt(5), Interval.point(7)]:
        s = d.start if math.isinf(d.start) else d.start + k
        t = d.end if math.isinf(d.end) else d.end + k
        e = Interval(s, t, start_open=d.start_open, end_open=d.end_open)
        a.begin_update(d)
        check(len(logged("w.begin")) == n + 1 and len(logged("w.end")) == n, "offset: a begin is passed on, once")
        a.end_update(d)
        check(len(logged("w.begin")) == n + 1 and len(logged("w.end")) == n + 1, "offset: an end is passed on, once")
        check(logged("w.begin")[n] == (e,), "offset: with the interval shifted")
        check(logged("w.end")[n] == (e,), "offset: with the interval shifted")
        check(not c.is_updating, "offset: over")
        n += 1


def c05_accumulator():
    """C08"""
    a = Src("a")
    relays_from(lambda: Accumulator(a, lambda x, y, last: y), [a, a], "accumulator")


def c05_accumulator_map():
    """C08"""
    a = Src("a")
    relays_from(lambda: a.trailing_max(3), [a], "trailing_max")


def c05_integral():
    """C08 C26"""
    a = Src("a")
    relays_from(lambda: a.integral(), [a], "integral")


def c05_sma():
    """C08 C13"""
    a = Src("a")
    relays_from(lambda: a.sma(3), [a], "sma")


def c05_ema():
    """C08 C13"""
    a = Src("a")
    relays_from(lambda: a.ema(0.5), [a], "ema")


def c05_ema_init():
    """C08 C13"""
    a = Src("a")
    b = Src("b")
    relays_from(lambda: a.ema(0.5, init=b), [a, b], "ema with an initial function")


def c05_smma():
    """C13"""
    a = Src("a")
    c = a.smma(3)
    watch(c, "w")
    d = ival("d")
    a.begin_update(d)
    a.end_update(d)
    check(len(logged("w.begin")) >= 1, "smma: announced")
    check(len(logged("w.end")) >= 1, "smma: reported")
    check(logged("w.end")[-1][0].is_superset_of(Interval(d.start, math.inf, start_open=d.start_open, end_open=True)), "smma: over everything from the start of the change")
    check(not c.is_updating, "smma: over")


def c05_extremas():
    """C30 C08"""
    a = Src("a")
    b = Src("b")
    relays_from(lambda: Extremas(a, b), [a, b], "extremas")


def c05_extremas_constant():
    """C30"""
    a = Src("a")
    relays_from(lambda: Extremas(a, 0), [a], "extremas")


def c05_trend():
    """C08 C29"""
    a = Src("a")
    relays_from(lambda: Trend(a, 3), [a, a], "trend")


def extended(d, start, end):
    s, so, t, to = d.start, d.start_open, d.end, d.end_open
    if start:
        s, so = -math.inf, True
    if end:
        t, to = math.inf, True
    return Interval(s, t, start_open=so, end_open=to)


def relays_extension(kind, start, end):
    a = Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])
    c = a.extension(kind, start=start, end=end)
    watch(c, "w")
    for d in [Interval.closed(0, 1), Interval.open(0, 2), Interval.closed(2, 5), Interval.point(1)]:
        e = extended(d, start, end)
        forget_log()
        a.begin_update(d)
        check(len(logged("w.begin")) == 1 and len(logged("w.end")) == 0, "extension: a begin is passed on, once")
        a.end_update(d)
        check(len(logged("w.begin")) == 1, "extension: no further begin")
        check(len(logged("w.end")) == 1, "extension: an end is passed on, once")
        check(not c.is_updating, "extension: over")
        if len(logged("w.begin")) == 1 and len(logged("w.end")) == 1:
            check(logged("w.begin")[0][0].is_superset_of(e), "extension: over the change and all that is extended from it")
            check(logged("w.end")[0] == logged("w.begin")[0], "extension: announced and reported alike")


def c05_extension_of_nothing():
    """C25 C07: a curve that has no end, or none chosen, is listened to as well"""
    a = Src("a")
    d = ival("d")
    for kind in ["constant", "tangent"]:
        for start, end in [(False, False), (True, True), (False, True), (True, False)]:
            c = a.extension(kind, start=start, end=end)
            w = kind + str(start) + str(end)
            watch(c, w)
            a.begin_update(d)
            check(len(logged(w + ".begin")) == 1 and len(logged(w + ".end")) == 0, "extension of an unbounded curve: a begin is passed on, once")
            a.end_update(d)
            check(len(logged(w + ".begin")) == 1 and len(logged(w + ".end")) == 1, "extension of an unbounded curve: an end is passed on, once")
            check(not c.is_updating, "extension of an unbounded curve: over")
            if len(logged(w + ".begin")) == 1 and len(logged(w + ".end")) == 1:
                check(logged(w + ".begin")[0][0].is_superset_of(d), "extension of an unbounded curve: over the change")
    p = Points([(0, num("y0")), (1, num("y1"))])
    c = p.extension("constant", start=False, end=False)
    watch(c, "v")
    p.append((2, num("y2")))
    check(len(logged("v.begin")) == 1 and len(logged("v.end")) == 1, "extension at no end: passed on, once")
    check(c.domain == Interval.closed(0, 2), "extension at no end: the domain of the curve")
    same(c.y(2), num("y2"), "extension at no end: the values of the curve")
    check(c.y(3) is None and c.y(-1) is None, "extension at no end: none beyond")


def c05_constant_extension_end():
    """C25 C01"""
    relays_extension("constant", False, True)


def c05_constant_extension_start():
    """C25 C01"""
    relays_extension("constant", True, False)


def c05_constant_extension_both():
    """C25 C01"""
    relays_extension("constant", True, True)


def c05_tangent_extension_end():
    """C25 C01"""
    relays_extension("tangent", False, True)


def c05_tangent_extension_both():
    """C25 C01"""
    relays_extension("tangent", True, True)


def c05_quotes():
    """C22"""
    q = Quotes("1h", quote_points=[[0, [1, 2, 3, 4, 5]], [3600, [1, 2, 3, 4, 5]]])
    for c in [q, q.open, q.high, q.low, q.close, q.volume, q.hl2]:
        watch(c, "w")
    v = [num("o"), num("h"), num("l"), num("c"), num("v")]
    q.append([7200, v])
    check(len(logged("w.begin")) == 7 and len(logged("w.end")) == 7, "quotes: every column hears of an appended quote, once")
    for l in logged("w.begin") + logged("w.end"):
        check(l[0].contains(7200), "quotes: the appended position is in the interval")
    forget_log()
    q.set([[0, v]])
    check(len(logged("w.begin")) == 7 and len(logged("w.end")) == 7, "quotes: every column hears of new quotes, once")


# ------------------------------------------------- a derived curve is bracketed


def in_step(make, source, change, x, what):
    """C05, C01: the derived curve has its old values when it announces a
    change of its source and the new ones when it reports it done"""
    c = make()
    old = c.y(x)
    seen = []
    c.add_observer(begin=lambda d: seen.append(("begin", d, c.y(x))), end=lambda d: seen.append(("end", d, c.y(x))))
    change()
    new = make().y(x)
    if len(seen) == 0:
        check(old == new, what + ": every change is announced")
        return
    check(len(seen) == 2, what + ": announced once and reported once")
    if len(seen) != 2:
        return
    check(seen[0][0] == "begin" and seen[1][0] == "end", what + ": announced, then reported")
    same(seen[0][2], old, what + ": the old value when the change is announced")
    same(seen[1][2], new, what + ": the new value when it is reported")
    same(c.y(x), new, what + ": the new value afterwards")
    check(seen[0][1] == seen[1][1], what + ": announced and reported with the same interval")
    if old is None:
        if new is not None:
            check(seen[1][1].contains(x), what + ": the interval holds a changed position")
    elif new is None:
        check(seen[1][1].contains(x), what + ": the interval holds a changed position")
    elif old != new:
        check(seen[1][1].contains(x), what + ": the interval holds a changed position")


def pts():
    return Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])


def c05_step_map():
    """C01 C03"""
    p = pts()
    in_step(lambda: p.map(lambda y: 2 * y + 1, skip_none=True), p, lambda: p.append((3, num("v"))), num("x"), "map")


def c05_step_map_replace():
    """C01 C03"""
    p = pts()
    in_step(lambda: p.map(lambda y: 2 * y + 1, skip_none=True), p, lambda: p.replace((1, num("v"))), num("x"), "map")


def c05_step_sum():
    """C01 C03 C11"""
    p = pts()
    q = Line(const=num("k"), slope=num("m"))
    in_step(lambda: p + q, p, lambda: p.append((3, num("v"))), num("x"), "a sum")


def c05_step_sum_other():
    """C01 C03 C11"""
    p = pts()
    q = Line(const=num("k"), slope=num("m"))
    in_step(lambda: p + q, q, lambda: q.set(const=num("k2"), slope=num("m2")), num("x"), "a sum")


def c05_step_constant():
    """C01 C03 C11"""
    p = pts()
    k = Constant(num("k"))

    def change():
        k.value = num("k2")
    assume(num("k") != num("k2"))
    in_step(lambda: p * k, k, change, num("x"), "a product")


def c05_step_offset():
    """C01 C03 C15"""
    p = pts()
    in_step(lambda: p.offset(num("s")), p, lambda: p.append((3, num("v"))), num("x"), "offset")


def c05_step_offset_replace():
    """C01 C03 C15"""
    p = pts()
    in_step(lambda: p.offset(num("s")), p, lambda: p.replace((0, num("v"))), num("x"), "offset")


def c05_step_subset():
    """C01 C03 C27"""
    p = pts()
    in_step(lambda: p.subset(Interval.closed(0, 2)), p, lambda: p.replace((1, num("v"))), num("x"), "subset")


def c05_step_piecewise():
    """C01 C03 C27"""
    p = pts()
    in_step(lambda: Piecewise([Constant(5), p], [Interval.closed_open(0, 1), Interval.closed(1, 3)]), p, lambda: p.append((3, num("v"))), num("x"), "piecewise")


def c05_step_constant_extension():
    """C01 C03 C25"""
    p = pts()
    in_step(lambda: p.extension("constant", start=True, end=True), p, lambda: p.append((3, num("v"))), num("x"), "constant extension")


def c05_step_constant_extension_replace():
    """C01 C03 C25"""
    p = pts()
    in_step(lambda: p.extension("constant", start=True, end=True), p, lambda: p.replace((0, num("v"))), num("x"), "constant extension")


def c05_step_tangent_extension():
    """C01 C03 C25"""
    p = pts()
    in_step(lambda: p.extension("tangent", start=False, end=True), p, lambda: p.append((3, num("v"))), 5, "tangent extension")


def c05_step_ema():
    """C01 C03 C08"""
    p = pts()
    for x in [0, 1, 2]:
        in_step(lambda: p.ema(0.5), p, lambda: p.replace((1, num("v%d" % x))), x, "ema")


def c05_step_ema_append():
    """C01 C03 C08"""
    p = pts()
    in_step(lambda: p.ema(0.5), p, lambda: p.append((3, num("v"))), 3, "ema")


def c05_step_integral():
    """C01 C03 C08"""
    p = pts()
    for x in [0, 1, 2]:
        in_step(lambda: p.integral(), p, lambda: p.replace((1, num("v%d" % x))), x, "integral")


def c05_step_sma():
    """C01 C03 C08"""
    p = pts()
    for x in [1, 2]:
        in_step(lambda: p.sma(2), p, lambda: p.replace((1, num("v%d" % x))), x, "sma")


def c05_step_sma_append():
    """C01 C03 C08"""
    p = pts()
    in_step(lambda: p.sma(2), p, lambda: p.append((3, num("v"))), 3, "sma")


def c05_step_trailing():
    """C01 C03 C08"""
    p = pts()
    for x in [0, 1, 2]:
        in_step(lambda: p.trailing_max(2), p, lambda: p.replace((1, num("v%d" % x))), x, "trailing_max")


def c05_step_quotes():
    """C01 C03 C22"""
    q = Quotes("1h", quote_points=[[0, [num("o0"), num("h0"), num("l0"), num("c0"), num("v0")]], [3600, [num("o1"), num("h1"), num("l1"), num("c1"), num("v1")]]])
    in_step(lambda: q.hl2, q, lambda: q.append([7200, [num("o2"), num("h2"), num("l2"), num("c2"), num("v2")]]), num("x"), "a column")


def c05_step_generic_function():
    """a curve over a plain function keeps its domain over updates: C07"""
    f = fn("f", 1)
    g = Generic(f, domain=Interval.closed(0, 10))
    check(g.domain == Interval.closed(0, 10), "generic: its domain")
    d = ival("d")
    g.begin_update(d)
    g.end_update(d)
    check(g.domain == Interval.closed(0, 10), "generic: its domain after an update")
