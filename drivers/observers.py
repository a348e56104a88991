"""C04, C06: the observer contract."""
from _driver_common import Src, watch
from curvepy import Curve, Constant, Points
from intervalpy import Interval
import math


def c04_delivered_once():
    """one begin and one end, with the interval of the update"""
    c = Src("a")
    d = ival("d")
    watch(c, "w")
    c.begin_update(d)
    check(logged("w.begin") == [(d,)], "one begin, with the interval")
    check(logged("w.end") == [], "no end before the update is over")
    check(c.is_updating, "an open update shows")
    c.end_update(d)
    check(logged("w.begin") == [(d,)], "no further begin")
    check(logged("w.end") == [(d,)], "one end, with the interval")
    check(not c.is_updating, "a closed update does not show")


def c04_again():
    """the next update is delivered like the first"""
    c = Src("a")
    d = ival("d")
    e = ival("e")
    watch(c, "w")
    c.begin_update(d)
    c.end_update(d)
    c.begin_update(e)
    c.end_update(e)
    check(logged("w.begin") == [(d,), (e,)], "each update begins once")
    check(logged("w.end") == [(d,), (e,)], "each update ends once")
    c.begin_update(d)
    c.end_update(d)
    check(len(logged("w.begin")) == 3, "the same interval again is another update")
    check(len(logged("w.end")) == 3, "the same interval again is another update")


def c04_only_intersecting():
    """an observer of a domain is told of the updates that intersect it, no others"""
    c = Src("a")
    d = ival("d")
    o = ival("o")

    def begin(i):
        log("begin", i)

    def end(i):
        log("end", i)
    c.add_observer(domain=o, begin=begin, end=end)
    c.begin_update(d)
    c.end_update(d)
    if d.intersects(o):
        check(logged("begin") == [(d,)], "told when the update intersects its domain")
        check(logged("end") == [(d,)], "told when the update intersects its domain")
    else:
        check(logged("begin") == [], "not told when the update misses its domain")
        check(logged("end") == [], "not told when the update misses its domain")


def c04_only_intersecting_bounds():
    c = Src("a")

    def begin():
        log("begin")

    def end():
        log("end")
    c.add_observer(domain=Interval.closed(1, 2), begin=begin, end=end)
    for d in [Interval.closed(3, 4), Interval.closed_open(0, 1), Interval.open(2, 5), Interval.lt(1), Interval.gt(2)]:
        c.begin_update(d)
        c.end_update(d)
    check(logged("begin") == [], "an update beside the domain is not delivered")
    check(logged("end") == [], "an update beside the domain is not delivered")
    n = 0
    for d in [Interval.closed(2, 4), Interval.closed(0, 1), Interval.open(1, 2), Interval.infinite(), Interval.gte(2), Interval.point(1)]:
        c.begin_update(d)
        c.end_update(d)
        n += 1
        check(len(logged("begin")) == n, "an update that touches the domain is delivered")
        check(len(logged("end")) == n, "an update that touches the domain is delivered")


def c04_arity():
    """callbacks with and without a parameter, methods, and defaults"""
    c = Src("a")
    d = ival("d")

    class Listener:
        def begin(self):
            log("m.begin")

        def end(self, i):
            log("m.end", i)

    def b0():
        log("b0")

    def e1(i):
        log("e1", i)

    def b1(i):
        log("b1", i)

    def e0():
        log("e0")
    l = Listener()
    c.add_observer(begin=b0, end=e1)
    c.add_observer(begin=b1, end=e0)
    c.add_observer(l, begin=l.begin, end=l.end)
    c.add_observer(begin=lambda i: log("lb", i), end=lambda: log("le"))
    c.begin_update(d)
    check(logged("b0") == [()], "a begin without a parameter is called without one")
    check(logged("b1") == [(d,)], "a begin with a parameter gets the interval")
    check(logged("m.begin") == [()], "a bound method's self is not a parameter")
    check(logged("lb") == [(d,)], "a lambda with a parameter gets the interval")
    c.end_update(d)
    check(logged("e1") == [(d,)], "an end with a parameter gets the interval")
    check(logged("e0") == [()], "an end without a parameter is called without one")
    check(logged("m.end") == [(d,)], "a bound method gets the interval")
    check(logged("le") == [()], "a lambda without a parameter is called without one")


def c04_only_one_callback():
    c = Src("a")
    d = ival("d")
    c.add_observer(begin=lambda i: log("b", i))
    c.add_observer(end=lambda i: log("e", i))
    c.begin_update(d)
    check(logged("b") == [(d,)] and logged("e") == [], "only a begin callback")
    c.end_update(d)
    check(logged("b") == [(d,)] and logged("e") == [(d,)], "only an end callback")


def c04_nothing_to_observe():
    c = Src("a")
    check(c.add_observer() == 0, "no callbacks: no observer")
    check(c.add_observer(domain=ival("o")) == 0, "no callbacks: no observer")


def c04_order():
    """in order of registration"""
    c = Src("a")
    d = ival("d")
    c.add_observer(begin=lambda: log("b", 1), end=lambda: log("e", 1))
    c.add_observer(begin=lambda: log("b", 2), end=lambda: log("e", 2))
    c.add_observer(begin=lambda: log("b", 3), end=lambda: log("e", 3))
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(1,), (2,), (3,)], "begins in order of registration")
    check(logged("e") == [(1,), (2,), (3,)], "ends in order of registration")


def c04_prioritised_first():
    """C06"""
    c = Src("a")
    d = ival("d")
    c.add_observer(begin=lambda: log("b", 1), end=lambda: log("e", 1))
    c.add_observer(begin=lambda: log("b", 2), end=lambda: log("e", 2), prioritize=True)
    c.add_observer(begin=lambda: log("b", 3), end=lambda: log("e", 3))
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(2,), (1,), (3,)], "a prioritised observer's begin comes first")
    check(logged("e") == [(2,), (1,), (3,)], "a prioritised observer's end comes first")


def numbered(c, i, prioritize=False):
    return c.add_observer(begin=lambda: log("b", i), end=lambda: log("e", i), prioritize=prioritize)


def c04_prioritised_among_many():
    """C06: whatever the number of the others, the latest prioritised comes first"""
    c = Src("a")
    d = ival("d")
    for i in range(12):
        numbered(c, i)
    numbered(c, 20, prioritize=True)
    numbered(c, 12)
    numbered(c, 21, prioritize=True)
    c.begin_update(d)
    c.end_update(d)
    e = [(21,), (20,)] + [(i,) for i in range(13)]
    check(logged("b") == e, "the prioritised first, then the others in order")
    check(logged("e") == e, "the prioritised first, then the others in order, at the end")


def c04_many_removed():
    """removing some of many observers leaves the others and their order"""
    c = Src("a")
    d = ival("d")
    tokens = [numbered(c, i, prioritize=i % 5 == 0) for i in range(12)]
    for i in [0, 3, 4, 5, 11]:
        c.remove_observer(tokens[i])
    c.begin_update(d)
    c.end_update(d)
    e = [(10,), (1,), (2,), (6,), (7,), (8,), (9,)]
    check(logged("b") == e, "the remaining ones in order")
    check(logged("e") == e, "the remaining ones in order, at the end")


def c04_tokens():
    c = Src("a")
    b = Src("b")
    t1 = c.add_observer(begin=lambda: log("b", 1))
    t2 = c.add_observer(begin=lambda: log("b", 2))
    t3 = b.add_observer(begin=lambda: log("b", 3))
    check(t1 != t2 and t2 != t3 and t1 != t3, "tokens are distinct, across curves as well")
    check(bool(t1) and bool(t2) and bool(t3), "a token of an observer is not zero")


def c04_remove_by_token():
    c = Src("a")
    d = ival("d")
    e = ival("e")
    c.add_observer(begin=lambda: log("b", 1), end=lambda: log("e", 1))
    t = c.add_observer(begin=lambda: log("b", 2), end=lambda: log("e", 2))
    c.add_observer(begin=lambda: log("b", 3), end=lambda: log("e", 3))
    c.begin_update(d)
    c.end_update(d)
    c.remove_observer(t)
    c.begin_update(e)
    c.end_update(e)
    check(logged("b") == [(1,), (2,), (3,), (1,), (3,)], "a removed observer hears no begin")
    check(logged("e") == [(1,), (2,), (3,), (1,), (3,)], "a removed observer hears no end")
    c.remove_observer(t)
    c.remove_observer(0)
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(1,), (2,), (3,), (1,), (3,), (1,), (3,)], "removing again, or the token 0, changes nothing")


def c04_remove_between():
    """removed between begin and end"""
    c = Src("a")
    d = ival("d")
    t = c.add_observer(begin=lambda: log("b", 1), end=lambda: log("e", 1))
    c.add_observer(begin=lambda: log("b", 2), end=lambda: log("e", 2))
    c.begin_update(d)
    c.remove_observer(t)
    c.end_update(d)
    check(logged("b") == [(1,), (2,)], "begins")
    check(logged("e") == [(2,)], "one removed meanwhile hears no end, the others do")


def c04_remove_by_object():
    c = Src("a")
    d = ival("d")

    class Owner:
        pass
    u = Owner()
    v = Owner()
    c.add_observer(u, begin=lambda: log("b", 1))
    c.add_observer(v, begin=lambda: log("b", 2))
    c.add_observer(u, begin=lambda: log("b", 3))
    c.add_observer(begin=lambda: log("b", 4))
    c.remove_observer(u)
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(2,), (4,)], "every observer of the object is removed, no other")


def c04_remove_many_by_object():
    """several in a row, and the last"""
    c = Src("a")
    d = ival("d")

    class Owner:
        pass
    u = Owner()
    v = Owner()
    c.add_observer(v, begin=lambda: log("b", 0))
    c.add_observer(u, begin=lambda: log("b", 1))
    c.add_observer(u, begin=lambda: log("b", 2), end=lambda: log("e", 2))
    c.add_observer(u, end=lambda: log("e", 3))
    c.add_observer(v, begin=lambda: log("b", 4))
    c.add_observer(u, begin=lambda: log("b", 5))
    c.remove_observer(u)
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(0,), (4,)] and logged("e") == [], "every observer of the object is removed, also those in a row")
    c.remove_observer(v)
    c.remove_observer(v)
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(0,), (4,)], "none is left")


def c04_autoremove_needs_an_object():
    c = Src("a")
    failed = False
    try:
        c.add_observer(begin=lambda: None, autoremove=True)
    except Exception:
        failed = True
    check(failed, "automatic removal without an object is refused")


def c04_removed_by_an_earlier_callback():
    """a callback removes a later observer, and itself"""
    c = Src("a")
    d = ival("d")
    ts = []

    def first():
        log("b", 1)
        c.remove_observer(ts[1])

    def last():
        log("b", 4)
        c.remove_observer(ts[3])
    ts.append(c.add_observer(begin=first))
    ts.append(c.add_observer(begin=lambda: log("b", 2)))
    ts.append(c.add_observer(begin=lambda: log("b", 3)))
    ts.append(c.add_observer(begin=last))
    ts.append(c.add_observer(begin=lambda: log("b", 5)))
    c.begin_update(d)
    c.end_update(d)
    check(logged("b") == [(1,), (3,), (4,), (5,)], "one removed meanwhile is not called, every other one is")


def c04_removed_by_an_earlier_end():
    c = Src("a")
    d = ival("d")
    ts = []

    def first():
        log("e", 1)
        c.remove_observer(ts[0])
        c.remove_observer(ts[1])
    ts.append(c.add_observer(end=first))
    ts.append(c.add_observer(end=lambda: log("e", 2)))
    ts.append(c.add_observer(end=lambda: log("e", 3)))
    c.begin_update(d)
    c.end_update(d)
    check(logged("e") == [(1,), (3,)], "one removed meanwhile is not called, every other one is")
    check(not c.is_updating, "the update is over")


def c04_nested():
    """an update inside an update is part of it"""
    c = Src("a")
    watch(c, "w")
    c.begin_update(Interval.closed(0, 10))
    c.begin_update(Interval.closed(2, 3))
    check(logged("w.begin") == [(Interval.closed(0, 10),)], "what is already announced is not announced again")
    c.end_update(Interval.closed(2, 3))
    check(logged("w.end") == [], "the end of a part is not the end")
    check(c.is_updating, "still updating")
    c.end_update(Interval.closed(0, 10))
    check(logged("w.end") == [(Interval.closed(0, 10),)], "one end, with the whole interval")
    check(not c.is_updating, "over")


def c04_overlapping():
    """updates that overlap in time end together"""
    c = Src("a")
    a = num("a")
    b = num("b")
    assume(a < b)
    watch(c, "w")
    p = Interval.closed(a, b)
    q = Interval.closed(b + 1, b + 2)
    c.begin_update(p)
    c.begin_update(q)
    check(logged("w.begin") == [(p,), (q,)], "each is announced")
    c.end_update(p)
    check(logged("w.end") == [], "no end while one is open")
    c.end_update(q)
    check(logged("w.end") == [(Interval.closed(a, b + 2),)], "one end, over all of them")
    check(not c.is_updating, "over")


def c04_overlapping_order():
    c = Src("a")
    watch(c, "w")
    p = Interval.closed(0, 2)
    q = Interval.closed(1, 4)
    c.begin_update(p)
    c.begin_update(q)
    c.end_update(q)
    check(logged("w.end") == [], "no end while one is open")
    c.end_update(p)
    check(logged("w.end") == [(Interval.closed(0, 4),)], "one end, over all of them")


def c04_empty():
    """nothing changes on an empty interval"""
    c = Src("a")
    watch(c, "w")
    c.begin_update(Interval.empty())
    check(not c.is_updating, "an empty update opens nothing")
    c.end_update(Interval.empty())
    check(logged("w.begin") == [] and logged("w.end") == [], "an empty update is not delivered")
    d = ival("d")
    c.begin_update(d)
    c.begin_update(Interval.empty())
    c.end_update(Interval.empty())
    check(logged("w.end") == [], "an empty update closes nothing")
    c.end_update(d)
    check(logged("w.begin") == [(d,)] and logged("w.end") == [(d,)], "an empty update inside another changes nothing")


def c04_update_from_end():
    """C01: an observer may start the next update from its end callback"""
    c = Src("a")
    d = ival("d")
    e = ival("e")
    done = []

    def end():
        log("e", len(done))
        if len(done) == 0:
            done.append(1)
            c.begin_update(e)
            c.end_update(e)
    c.add_observer(end=end)
    c.begin_update(d)
    c.end_update(d)
    check(len(logged("e")) == 2, "the update started from a callback is delivered as well")
    check(not c.is_updating, "over")


def c04_each_its_own():
    """observers of one curve hear nothing of another"""
    a = Src("a")
    b = Src("b")
    watch(a, "a")
    watch(b, "b")
    d = ival("d")
    a.begin_update(d)
    a.end_update(d)
    check(len(logged("a.begin")) == 1 and len(logged("a.end")) == 1, "the curve's own observer hears")
    check(len(logged("b.begin")) == 0 and len(logged("b.end")) == 0, "another curve's observer does not")
    check(not b.is_updating, "another curve is not updating")


# ----------------------------------------------------------------------- C06


def fresh_for_plain_observers(source, derive, change, x):
    """a plain observer of the source, registered first, finds the derived
    curve up to date when it hears of the end, as it was when it hears of the
    begin"""
    d = []

    def begin():
        log("plain.begin", d[0].y(x))

    def end():
        log("plain.end", d[0].y(x), derive(source).y(x))
        log("plain.domain", d[0].domain, derive(source).domain)
    source.add_observer(begin=begin, end=end)
    d.append(derive(source))
    old = d[0].y(x)
    d[0].domain
    change()
    bs = logged("plain.begin")
    es = logged("plain.end")
    check(len(bs) == 1 and len(es) == 1, "the plain observer hears once of each")
    same(bs[0][0], old, "a derived curve still has its old values when a plain observer hears of the begin")
    same(es[0][0], es[0][1], "a derived curve has its new values when a plain observer hears of the end")
    ds = logged("plain.domain")
    check(ds[0][0] == ds[0][1], "a derived curve has its new domain when a plain observer hears of the end")


def points():
    return Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])


def c06_map():
    """C07"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.map(lambda y: 2 * y, skip_none=True), lambda: p.append((3, num("v"))), num("x"))


def c06_aggregate():
    """C07"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c + 1, lambda: p.append((3, num("v"))), num("x"))


def c06_offset():
    """C07"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.offset(5), lambda: p.append((3, num("v"))), num("x"))


def c06_subset():
    p = points()
    fresh_for_plain_observers(p, lambda c: c.subset(Interval.closed(0, 2)), lambda: p.replace((1, num("v"))), num("x"))


def c06_accumulator():
    """C07 C08"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.ema(0.5), lambda: p.replace((1, num("v"))), 2)


def c06_accumulator_append():
    """C07 C08"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.ema(0.5), lambda: p.append((3, num("v"))), 3)


def c06_integral():
    """C07 C08"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.integral(), lambda: p.replace((1, num("v"))), 2)


def c06_sma():
    """C07 C08"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.sma(2), lambda: p.append((3, num("v"))), 3)


def c06_trailing():
    """C07 C08"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.trailing_max(2), lambda: p.replace((2, num("v"))), 2)


def c06_constant_extension():
    """C07 C25"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.extension("constant"), lambda: p.append((3, num("v"))), num("x"))


def c06_tangent_extension():
    """C07 C25"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.extension("tangent"), lambda: p.append((3, num("v"))), 5)


def c06_chain():
    """C05 C07: through two derived curves"""
    p = points()
    fresh_for_plain_observers(p, lambda c: c.map(lambda y: 2 * y, skip_none=True).offset(1), lambda: p.append((3, num("v"))), num("x"))


def c06_two_derived():
    """the later derived curve, too, is told before a plain observer"""
    p = points()
    q = p.map(lambda y: y + 1, skip_none=True)
    fresh_for_plain_observers(p, lambda c: c.map(lambda y: 2 * y, skip_none=True), lambda: p.append((3, num("v"))), num("x"))
    check(not q.is_updating, "over")


def c06_quotes_column():
    """C22"""
    from curvepy import Quotes
    q = Quotes("1h", quote_points=[[0, [num("o0"), num("h0"), num("l0"), num("c0"), num("v0")]], [3600, [num("o1"), num("h1"), num("l1"), num("c1"), num("v1")]]])
    fresh_for_plain_observers(q, lambda c: c.close, lambda: q.append([7200, [num("o2"), num("h2"), num("l2"), num("c2"), num("v2")]]), num("x"))


def parts_delivered(o, parts, ends, what):
    """updates that overlap in time, their ends in the order given: the observer
    of o is told of the end of them all exactly if any of them touches o"""
    c = Src("a")
    c.add_observer(domain=o, begin=lambda i: log("b", i), end=lambda i: log("e", i))
    c.add_observer(begin=lambda: log("all.b"), end=lambda i: log("all.e", i))
    touched = []
    for p in parts:
        if p.intersects(o):
            touched.append((p,))
        c.begin_update(p)
    check(logged("b") == touched, what + ": told of the beginnings that touch its interval")
    for i in ends:
        check(logged("e") == [], what + ": no end while a part is open")
        c.end_update(parts[i])
    check(not c.is_updating, what + ": over")
    check(len(logged("e")) == (1 if len(touched) else 0), what + ": told of the end once if any part touches its interval")
    check(len(logged("all.e")) == 1, what + ": an observer of everything is told of the end once")
    for (i,) in logged("e"):
        for p in parts:
            check(i.is_superset_of(p), what + ": the end covers every part")


def c04_parts_first_touches():
    parts_delivered(Interval.closed(0, 1), [Interval.closed(0, 1), Interval.open_closed(1, 5)], [0, 1], "the first part touches")


def c04_parts_last_touches():
    parts_delivered(Interval.closed(3, 9), [Interval.closed(0, 1), Interval.open_closed(1, 5)], [0, 1], "the last part touches")
    forget_log()
    parts_delivered(Interval.closed(3, 9), [Interval.closed(0, 1), Interval.open_closed(1, 5)], [1, 0], "the last part touches, ends first")


def c04_parts_none_touches():
    parts_delivered(Interval.closed(6, 9), [Interval.closed(0, 1), Interval.open_closed(1, 5)], [1, 0], "no part touches")


def c04_parts_overlap():
    """C05"""
    for o in [Interval.closed(3, 9), Interval.closed(0, 0.5), Interval.closed(1, 2), Interval.gt(6)]:
        for ps in [[Interval.closed(0, 2), Interval.closed(1, 5)], [Interval.closed(1, 5), Interval.closed(0, 2)]]:
            for ends in [[0, 1], [1, 0]]:
                parts_delivered(o, ps, ends, "parts that overlap")
                forget_log()


def window_of(make, o, what):
    """an observer of a part of a curve that follows several is told of the beginning
    of whatever it is told of the end of"""
    p = Points([(0, num("y0")), (1, num("y1")), (2, num("y2"))])
    c = make(p)
    c.add_observer(domain=o, begin=lambda i: log("b", i), end=lambda i: log("e", i))
    p.replace((1, num("v")))
    check(not c.is_updating, what + ": over")
    check(len(logged("e")) == 1, what + ": told once, when all is over")
    check(len(logged("b")) >= 1, what + ": told of the beginning before")
    for (i,) in logged("e"):
        check(i.intersects(o), what + ": told of what it watches")
    for (i,) in logged("b"):
        check(i.intersects(o), what + ": told of what it watches")
    forget_log()


def c04_window_of_several():
    """C05, C03"""
    for o in [Interval.gt(5), Interval.closed(7, 9)]:
        window_of(lambda p: p + p.ema(0.5), o, "a curve and its average")
        window_of(lambda p: p.ema(0.5) + p, o, "an average and its curve")
        window_of(lambda p: p - p.integral(), o, "a curve and its integral")
        window_of(lambda p: Curve.max([p, p.ema(0.5), 0]), o, "the greatest of a curve, its average and zero")


def c04_window_and_reader():
    """an observer that asks for the domain changes nothing for those after it"""
    p = Points([(i, num("y%d" % i)) for i in range(5)])
    c = p.map(lambda y: 2 * y, skip_none=True)
    for k in [p, c]:
        k.add_observer(begin=lambda: log("domain", k.domain), end=lambda: log("domain", k.domain))
        k.add_observer(domain=Interval.gt(3), begin=lambda i: log("b", i), end=lambda i: log("e", i))
    p.replace((1, num("v")))
    check(len(logged("b")) == 0 and len(logged("e")) == 0, "told of nothing it does not watch")
    p.replace((4, num("v")))
    check(len(logged("b")) == 2 and len(logged("e")) == 2, "told of what it watches")


def c04_three_parts():
    ps = [Interval.closed(0, 1), Interval.open_closed(1, 2), Interval.open_closed(2, 3)]
    for o in [Interval.closed(0, 0.5), Interval.closed(1.5, 1.75), Interval.gt(2.5)]:
        for ends in [[0, 1, 2], [2, 1, 0], [1, 0, 2]]:
            parts_delivered(o, ps, ends, "three parts")
            forget_log()
