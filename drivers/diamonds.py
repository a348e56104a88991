"""C05 C06 C07 C01: curves that follow several curves which follow one source."""
from _driver_common import Src, watch
from curvepy import (Curve, Points, Aggregate, Piecewise, EMA, SMA, Extremas, Quotes, Accumulator)
from intervalpy import Interval
import math


def data():
    return [(0, num("y0")), (1, num("y1")), (2, num("y2")), (3, num("y3"))]


def settles(make, x, what, change=None, after=None, read=None):
    """told of a change of the common source once, when every branch has settled;
    a reader of one branch (read) may have looked at the curve in between"""
    p = Points(data())
    if change is None:
        def change(p):
            p.append((4, num("v")))
        after = data() + [(4, num("v"))]
    c = make(p)
    f = make(Points(after))
    old = c.y(x)
    domain = c.domain
    p.add_observer(begin=lambda: log("p.begin", c.y(x)), end=lambda: log("p.end", c.y(x), c.domain))
    c.add_observer(begin=lambda d: log("c.begin", d, c.y(x), c.domain), end=lambda d: log("c.end", d, c.y(x), c.domain))
    change(p)
    bs = logged("c.begin")
    es = logged("c.end")
    check(len(bs) >= 1, what + ": announced")
    check(len(es) == 1, what + ": reported once, at the end of it all")
    for b in bs:
        same(b[1], old, what + ": the old values when it is announced")
        check(b[2] == domain, what + ": the old domain when it is announced")
    new = f.y(x)
    for e in es:
        same(e[1], new, what + ": the new values when it is reported")
        check(e[2] == f.domain, what + ": the new domain when it is reported")
        for b in bs:
            check(e[0].is_superset_of(b[0]), what + ": the report covers all that was announced")
        if new is None or old is None:
            if new is not None or old is not None:
                check(e[0].contains(x), what + ": the report covers what appeared or disappeared")
        elif new != old:
            check(e[0].contains(x), what + ": the report covers what changed")
    check(not c.is_updating, what + ": over")
    for e in logged("p.end"):
        same(e[0], new, what + ": new values for an observer of the source")
        check(e[1] == f.domain, what + ": the new domain for an observer of the source")
    same(c.y(x), new, what + ": the value afterwards")
    check(c.domain == f.domain, what + ": the domain afterwards")


def replaced(make, x, what):
    def change(p):
        p.replace((2, num("v")))
    settles(make, x, what + ", a point replaced", change, [(0, num("y0")), (1, num("y1")), (2, num("v")), (3, num("y3"))])


def cleared(make, x, what):
    def change(p):
        p.set([(0, num("v")), (1, num("w"))])
    settles(make, x, what + ", points set", change, [(0, num("v")), (1, num("w"))])


def c05_beside_its_map():
    """C11"""
    settles(lambda p: p + p.map(lambda y: 2 * y), num("x"), "a curve and its map")


def c05_its_map_first():
    """C11"""
    settles(lambda p: -p + p, num("x"), "a map of a curve and the curve")


def c05_two_maps():
    """C11"""
    settles(lambda p: (p * 2) - (p + 1), num("x"), "two curves computed from one")


def c05_two_maps_replaced():
    """C11"""
    replaced(lambda p: (p * 2) - (p + 1), num("x"), "two curves computed from one")


def c05_two_maps_set():
    """C11"""
    cleared(lambda p: (p * 2) - (p + 1), num("x"), "two curves computed from one")


def c05_three_levels():
    """C11"""
    def make(p):
        a = p + 1
        b = a * 2
        return (a + b) - (b - p)
    settles(make, num("x"), "three levels")


def c05_later_branch_created_first():
    """C11: the branches in the other order"""
    def make(p):
        b = (p * 2).offset(1).offset(-1)
        a = p + 1
        return Curve.add_many([a, b, p])
    settles(make, num("x"), "branches of different length")


def c05_averages():
    """C13 C08"""
    settles(lambda p: p.sma(2) - p.sma(3), 4, "the difference of two averages")


def c05_averages_replaced():
    """C13 C08"""
    replaced(lambda p: p.sma(2) - p.sma(3), 3, "the difference of two averages")


def c05_averages_set():
    """C13 C08"""
    cleared(lambda p: p.sma(1) - p.sma(2), 1, "the difference of two averages")


def c05_exponential_averages():
    """C13 C08"""
    settles(lambda p: p.ema(0.5) - p.ema(0.25), 4, "the difference of two exponential averages")


def c05_curve_less_average():
    """C13 C08"""
    replaced(lambda p: p - p.ema(0.5), 3, "a curve less its average")


def c05_average_with_initial():
    """C13 C08"""
    settles(lambda p: p.smma(2), 4, "a smoothed average")


def c05_average_with_initial_replaced():
    """C13 C08"""
    def change(p):
        p.replace((1, num("v")))
    settles(lambda p: p.smma(2), 3, "a smoothed average, a point replaced", change, [(0, num("y0")), (1, num("v")), (2, num("y2")), (3, num("y3"))])


def c05_strength():
    """C13 C08"""
    p = Points([(0, 4), (1, num("y1")), (2, 1)])
    d = p.differential()
    c = Curve.max([d, 0]).ema(0.5) + Curve.max([-d, 0]).ema(0.5)
    q = Points([(0, 4), (1, num("y1")), (2, 1), (3, 6)])
    e = q.differential()
    f = Curve.max([e, 0]).ema(0.5) + Curve.max([-e, 0]).ema(0.5)
    c.y(2)
    c.domain
    c.add_observer(begin=lambda: log("b"), end=lambda: log("e", c.y(3), c.domain))
    p.append((3, 6))
    check(len(logged("e")) == 1, "gains and losses: reported once")
    for v, dom in logged("e"):
        same(v, f.y(3), "gains and losses: new values when reported")
        check(dom == f.domain, "gains and losses: the new domain when reported")


def c05_extremas_of_average():
    """C30 C08: a curve against its own average"""
    for y in [3, 9]:
        forget_log()

        def change(p):
            p.append((4, y))
        p = Points([(0, 5), (1, 9), (2, 1), (3, 8)])
        c = Extremas(p, p.sma(2))
        f = Points([(0, 5), (1, 9), (2, 1), (3, 8), (4, y)])
        g = Extremas(f, f.sma(2))
        c.y(2)
        c.add_observer(begin=lambda: log("b"), end=lambda: log("e", c.y(2), c.domain))
        change(p)
        check(len(logged("b")) >= 1 and len(logged("e")) == 1, "extremas against the average: reported once")
        for e in logged("e"):
            same(e[0], g.y(2), "extremas against the average: new values when reported")
            check(e[1] == g.domain, "extremas against the average: the new domain when reported")


def c05_blend_with_average():
    """C27 C08"""
    settles(lambda p: p.blend(p.ema(0.5), 1, 3), 4, "a blend into the average")


def c05_piecewise_branches():
    """C27"""
    settles(lambda p: Piecewise([p, p * 2], [Interval.closed(0, 1), Interval.open_closed(1, 9)]), num("x"), "pieces of one curve", None, None)


def c05_displaced_branches():
    """C15 C25"""
    settles(lambda p: p + p.offset(1), num("x"), "a curve and itself displaced")


def c05_extended_branches():
    """C25"""
    settles(lambda p: p.extension("constant") + p.extension("constant", start=True), 6, "two extensions")


def c05_selected_branches():
    """C12"""
    settles(lambda p: Curve.first(p.offset(2), p), num("x"), "the first of a displaced curve and itself")


def c05_many_branches():
    """C04 C11"""
    settles(lambda p: Curve.add_many([p.ema(0.5), p.sma(2), p.integral(), p.map(lambda y: 2 * y), p.sma(1)]), 4, "five curves of one source")
    forget_log()
    settles(lambda p: Curve.add_many([p, -p, p.offset(1), p.sma(2), p.trailing_max(1), p.ema(0.25)]), 3, "a source and five curves of it")


def c05_many_branches_replaced():
    """C04"""
    replaced(lambda p: Curve.add_many([p.ema(0.5), p.sma(2), p.integral(), p.map(lambda y: 2 * y), p.sma(1)]), 3, "five curves of one source")


def c04_waits_for_many():
    """C05 C06: whichever of many sources ends last"""
    for last in range(5):
        forget_log()
        ss = [Src("s%d" % i) for i in range(5)]
        c = Aggregate(ss, tfm=lambda x, ys: ys[0])
        watch(c, "c")
        d = Interval.closed(0, 1)
        for s in ss:
            s.begin_update(d)
        for i in range(5):
            if i != last:
                ss[i].end_update(d)
                check(logged("c.end") == [] and c.is_updating, "not over while one of the sources is being updated")
        ss[last].end_update(d)
        check(len(logged("c.end")) == 1 and not c.is_updating, "over when all of them are")


def c05_columns():
    """C22"""
    q = Quotes("1h", quote_points=[[0, [num("o0"), num("h0"), num("l0"), num("c0"), num("v0")]], [3600, [num("o1"), num("h1"), num("l1"), num("c1"), num("v1")]]])
    c = q.high - q.low
    c.y(3600)
    c.domain
    c.add_observer(begin=lambda: log("b", c.domain), end=lambda: log("e", c.y(7200), c.domain))
    q.append([7200, [num("o2"), num("h2"), num("l2"), num("c2"), num("v2")]])
    check(len(logged("b")) == 1 and len(logged("e")) == 1, "the difference of two columns: announced and reported once")
    for e in logged("e"):
        same(e[0], num("h2") - num("l2"), "the difference of two columns: new values when reported")
        check(e[1] == Interval.closed(0, 7200), "the difference of two columns: the new domain when reported")


def c04_waits_for_every_source():
    """C01: an update of several sources, ended in any order, is reported when the last one ends"""
    a = Src("a")
    b = Src("b")
    c = a + b
    watch(c, "w")
    d = ival("d")
    for first, second in [(a, b), (b, a)]:
        for last in [first, second]:
            other = second if last is first else first
            n = len(logged("w.end"))
            first.begin_update(d)
            second.begin_update(d)
            other.end_update(d)
            check(len(logged("w.end")) == n, "no report while another source is being updated")
            check(c.is_updating, "updating while another source is")
            last.end_update(d)
            check(len(logged("w.end")) == n + 1, "one report when the last source has ended")
            check(not c.is_updating, "over")


def c04_unfollowed():
    """a curve that no longer follows another does not wait for it"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    t = a.add_observer(begin=c.begin_update, end=c.end_update)
    b.add_observer(begin=c.begin_update, end=c.end_update)
    watch(c, "w")
    d = Interval.closed(0, 1)
    a.remove_observer(t)
    a.begin_update(d)
    b.begin_update(d)
    b.end_update(d)
    check(len(logged("w.begin")) == 1 and len(logged("w.end")) == 1, "told by the curve it follows")
    check(not c.is_updating, "over")
    a.end_update(d)
    check(len(logged("w.begin")) == 1 and len(logged("w.end")) == 1, "not told by the curve it followed")


def c04_followed_for_an_interval():
    """a curve that follows another within an interval does not wait for updates elsewhere"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    a.add_observer(domain=Interval.closed(10, 20), begin=c.begin_update, end=c.end_update)
    b.add_observer(begin=c.begin_update, end=c.end_update)
    watch(c, "w")
    d = Interval.closed(0, 1)
    a.begin_update(d)
    b.begin_update(d)
    b.end_update(d)
    check(len(logged("w.begin")) == 1 and len(logged("w.end")) == 1, "an update elsewhere is not waited for")
    a.end_update(d)
    check(not c.is_updating, "over")
