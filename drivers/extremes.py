"""C30: extremas against their definition."""
from _driver_common import Src, bracketed
from curvepy import Curve, Line, Constant, Points
from curvepy.extremas import Extremas
from intervalpy import Interval


def excursions(ps, ref, dev=0):
    """the furthest point of every excursion that is left for the other side"""
    out = []
    best = None
    side = 0
    for x, y in ps:
        r = ref(x)
        if y is None or r is None:
            continue
        d = y - r
        if d > 0:
            far, s = d, 1
        else:
            far, s = -d, -1
        size = r if r > 0 else -r
        if far <= dev * size:
            continue
        if side == 0:
            side, best = s, (x, y)
        elif s != side:
            out.append(best)
            side, best = s, (x, y)
        elif s > 0 and y > best[1]:
            best = (x, y)
        elif s < 0 and y < best[1]:
            best = (x, y)
    return out


def agrees(e, ps, ref, dev, last, what):
    """the extremas are those of the definition, and so are values and steps"""
    want = excursions(ps, ref, dev)
    e.y(last)
    check(len(e.extremas) == len(want), what + ": as many extremas as excursions that are left")
    if len(e.extremas) != len(want):
        return want
    for i in range(len(want)):
        check(e.extremas[i][0] == want[i][0], what + ": the position furthest out")
        same(e.extremas[i][1], want[i][1], what + ": the value furthest out")
    return want


def c30_definition():
    """C10"""
    ps = [(0, num("a")), (1, num("b")), (2, num("c"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 2, "three points")


def c30_definition_four():
    ps = [(0, 1 + pos("a")), (1, num("b")), (2, num("c")), (3, num("d"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 3, "four points, up first")


def c30_definition_four_down():
    ps = [(0, -1 - pos("a")), (1, num("b")), (2, num("c")), (3, num("d"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 3, "four points, down first")


def c30_definition_five():
    ps = [(0, pos("a")), (1, pos("b")), (2, -pos("c")), (3, -pos("d")), (4, num("e"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 4, "five points, up and down")


def c30_definition_five_down():
    ps = [(0, -pos("a")), (1, -pos("b")), (2, pos("c")), (3, pos("d")), (4, -pos("e"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 4, "five points, down and up")


def c30_definition_six():
    ps = [(0, pos("a")), (1, -pos("b")), (2, num("z")), (3, pos("c")), (4, -pos("d")), (5, pos("e"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 5, "six points")


def c30_reference():
    """against a level other than zero"""
    r = num("r")
    ps = [(0, r + pos("a")), (1, num("b")), (2, r - pos("c")), (3, num("d"))]
    agrees(Extremas(Points(ps), r), ps, lambda x: r, 0, 3, "a level")


def c30_reference_line():
    """against a line"""
    l = Line(const=num("k"), slope=1)
    ps = [(0, num("k") + pos("a")), (1, num("k") + 1 - pos("b")), (2, num("k") + 2 + pos("c")), (3, num("k") + 3 - pos("d"))]
    e = Extremas(Points(ps), l)
    want = agrees(e, ps, lambda x: l.y(x), 0, 3, "a line")
    check(len(want) == 3, "every excursion but the last is left")


def c30_reference_missing():
    """C10: no reference, no excursion"""
    ps = [(0, pos("a")), (1, -pos("b")), (2, pos("c")), (3, -pos("d"))]
    r = Points([(1, 0), (2, 0), (3, 0)])
    e = Extremas(Points(ps), r)
    agrees(e, ps, lambda x: r.y(x), 0, 3, "a reference that begins later")
    e = Extremas(Points(ps), Constant(None))
    check(e.y(1) is None and len(e.extremas) == 0, "no reference, no extremas")


def c30_missing():
    """C10: missing values belong to no excursion"""
    ps = [(0, pos("a")), (1, None), (2, -pos("c")), (3, maybe("d")), (4, pos("e"))]
    agrees(Extremas(Points(ps), 0), ps, lambda x: 0, 0, 4, "missing values")


def c30_deviation():
    """C14: too close to the reference"""
    ps = [(0, 100 + pos("a")), (1, num("b")), (2, num("c"))]
    agrees(Extremas(Points(ps), 100, min_deviation=0.1), ps, lambda x: 100, 0.1, 2, "a deviation")


def c30_deviation_down():
    ps = [(0, num("a")), (1, num("b")), (2, 50)]
    agrees(Extremas(Points(ps), 100, min_deviation=0.1), ps, lambda x: 100, 0.1, 2, "a deviation, ending below")


def c30_deviation_negative():
    """relative to the size of the reference"""
    ps = [(0, -50), (1, num("b")), (2, num("c"))]
    agrees(Extremas(Points(ps), -100, min_deviation=0.1), ps, lambda x: -100, 0.1, 2, "a deviation from a negative reference")
    ps = [(0, -50), (1, num("b")), (2, -50)]
    agrees(Extremas(Points(ps), -100, min_deviation=-0.1), ps, lambda x: -100, 0.1, 2, "a deviation of either sign")


def c30_deviation_any():
    d = pos("dev")
    ps = [(0, 300 + pos("a")), (1, num("b")), (2, 300)]
    assume(d < 1)
    agrees(Extremas(Points(ps), 100, min_deviation=d), ps, lambda x: 100, d, 2, "any deviation")


def c30_equal():
    """C20: of equals the first"""
    a = pos("a")
    ps = [(0, a), (1, a), (2, -1), (3, -1), (4, 1)]
    e = Extremas(Points(ps), 0)
    e.y(4)
    check([p[0] for p in e.extremas] == [0, 2], "of equals the first")


def zigzag():
    return [(0, pos("a")), (1, -pos("b")), (2, pos("c")), (3, -pos("d"))]


def c30_values():
    """C28: linear between, nothing outside"""
    ps = zigzag()
    e = Extremas(Points(ps), 0)
    x = num("x")
    r = e.y(x)
    if x < 0 or x > 2:
        check(r is None, "nothing outside the first and last extrema")
    elif x <= 1:
        same(r, (1 - x) * pos("a") - x * pos("b"), "linear between the first two")
    else:
        same(r, (2 - x) * -pos("b") + (x - 1) * pos("c"), "linear between the next two")


def c30_values_uneven():
    """neighbouring extremas several points apart"""
    ps = [(0, 1), (1, 1 + pos("a")), (2, 1), (3, -1), (4, -1 - pos("b")), (5, 1)]
    e = Extremas(Points(ps), 0)
    same(e.y(1), 1 + pos("a"), "the first extrema")
    same(e.y(4), -1 - pos("b"), "the second extrema")
    x = num("x")
    assume(x > 1 and x < 4)
    t = (x - 1) / 3
    same(e.y(x), (1 - t) * (1 + pos("a")) + t * (-1 - pos("b")), "linear between the extremas")
    check(e.y(0.5) is None and e.y(4.5) is None, "nothing outside the first and last extrema")


def c30_samples():
    """C23"""
    ps = [(0, 1), (1, 1 + pos("a")), (2, 1), (3, -1), (4, -1 - pos("b")), (5, 1)]
    e = Extremas(Points(ps), 0)
    got = e.sample_points()
    check([p[0] for p in got] == [1, 4], "the extremas are the samples")
    same([p[1] for p in got], [1 + pos("a"), -1 - pos("b")], "the values of the extremas are the samples")


def c30_samples_part():
    """C23"""
    ps = zigzag() + [(4, pos("e")), (5, -pos("f"))]
    got = Extremas(Points(ps), 0).sample_points(Interval.closed(1, 3))
    check([p[0] for p in got] == [1, 2, 3], "the extremas in the interval")
    same([p[1] for p in got], [-pos("b"), pos("c"), -pos("d")], "their values")


def c30_steps():
    """C20: to the next and previous extrema"""
    ps = [(0, 1), (1, 1 + pos("a")), (2, 1), (3, -1), (4, -1 - pos("b")), (5, 1), (6, -1)]
    e = Extremas(Points(ps), 0)
    check(e.x_next(1) == 4 and e.x_next(2) == 4 and e.x_next(3.5) == 4 and e.x_next(4) == 5, "to the next extrema")
    check(e.x_previous(5) == 4 and e.x_previous(4) == 1 and e.x_previous(3) == 1 and e.x_previous(1.5) == 1, "to the extrema before")
    e = Extremas(Points(ps), 0)
    check(e.x_previous(4) == 1, "asked first")
    check(e.x_next(1, min_step=3) == 4 and e.x_next(1, min_step=3.5) == 5, "a step that reaches an extrema just so, and one that misses it")
    check(e.x_previous(5, min_step=1) == 4 and e.x_previous(5, min_step=1.5) == 1 and e.x_previous(4, min_step=3) == 1, "a step back that reaches an extrema just so, and one that misses it")


def c30_early():
    """C08: reported for positions asked for first"""
    ps = zigzag()
    x = num("x")
    assume(x >= 0 and x <= 2)
    e = Extremas(Points(ps), 0)
    r = e.y(x)
    check(r is not None, "a value up to the last extrema, whatever is asked first")
    f = Extremas(Points(ps), 0)
    f.y(3)
    same(f.y(x), r, "whatever is asked first")


def c30_none():
    """C28: no excursion is left"""
    ps = [(0, pos("a")), (1, pos("b")), (2, pos("c"))]
    e = Extremas(Points(ps), 0)
    check(e.y(0) is None and e.y(1) is None and e.y(2) is None, "no value without extremas")
    check(len(e.sample_points()) == 0, "no samples without extremas")
    e = Extremas(Points([]), 0)
    check(e.y(0) is None and e.domain.is_empty and e.sample_points() == [], "nothing of nothing")


def c30_one():
    ps = [(0, pos("a")), (1, -pos("b"))]
    e = Extremas(Points(ps), 0)
    same(e.y(0), pos("a"), "the only extrema")
    check(e.y(1) is None and e.y(0.5) is None, "nothing after the only extrema")


# ------------------------------------------------------------------ histories
def history(ps, change, ask, what, ref=0):
    p = Points(ps)
    e = Extremas(p, ref)
    for x in ask:
        e.y(x)
    change(p)
    now = p.sample_points()
    agrees(e, now, lambda x: ref, 0, now[-1][0], what)
    f = Extremas(p, ref)
    for x in [0.5, 1, 2.5]:
        same(e.y(x), f.y(x), what + ": the values are those of a new curve")


def c30_append_one_by_one():
    """C08"""
    p = Points([])
    e = Extremas(p, 0)
    ps = [(0, 1 + pos("a")), (1, num("b")), (2, num("c"))]
    for q in ps:
        p.append(q)
        e.y(q[0])
    agrees(e, ps, lambda x: 0, 0, 2, "points appended and asked for one by one")


def c30_append_one_by_one_down():
    """C08"""
    p = Points([(0, -1 - pos("a"))])
    e = Extremas(p, 0)
    ps = [(1, 5), (2, num("b")), (3, -3)]
    for q in ps:
        p.append(q)
        e.y(q[0])
    agrees(e, [(0, -1 - pos("a"))] + ps, lambda x: 0, 0, 3, "points appended and asked for one by one")


def c30_replace_last_again():
    """C08 C05: the last point changes again and again"""
    p = Points([(0, 1), (1, -1), (2, 2)])
    e = Extremas(p, 0)
    e.y(2)
    p.replace((2, num("u")))
    e.y(2)
    p.replace((2, num("v")))
    e.y(2)
    p.append((3, -5))
    agrees(e, [(0, 1), (1, -1), (2, num("v")), (3, -5)], lambda x: 0, 0, 3, "the last point replaced twice")


def c30_replace_extrema():
    """C08"""
    history([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3)], lambda p: p.replace((2, num("u"))), [4, 1], "an extrema replaced")


def c30_replace_twice():
    """C08"""
    def change(p):
        p.replace((1, num("u")))
        p.replace((1, -7))
        p.replace((3, num("w")))
    history([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3)], change, [4], "replaced, back and forth")


def c30_level_replaced():
    """C08: around a level far from zero"""
    k = 100
    history([(0, 101), (1, 99), (2, 102), (3, 98), (4, 103)], lambda p: p.replace((4, num("u"))), [4], "the last point replaced", ref=k)
    history([(0, 101), (1, 99), (2, 102), (3, 98), (4, 103)], lambda p: p.replace((3, num("u"))), [4], "a point replaced", ref=k)
    history([(0, 99), (1, 101), (2, 98), (3, 102)], lambda p: p.append((4, num("u"))), [3], "a point appended", ref=k)
    history([(0, 99), (1, 101), (2, 98), (3, 102), (4, 97)], lambda p: p.replace((4, num("u"))), [4], "the last point replaced, down", ref=k)


def c30_level_replaced_below():
    """C08: around a level below zero"""
    k = -100
    history([(0, -99), (1, -101), (2, -98), (3, -102), (4, -97)], lambda p: p.replace((4, num("u"))), [4], "the last point replaced", ref=k)
    history([(0, -101), (1, -99), (2, -102), (3, -98), (4, -103)], lambda p: p.replace((4, num("u"))), [4], "the last point replaced, down", ref=k)


def c30_set():
    """C08"""
    history([(0, 1), (1, -1), (2, 2), (3, -2)], lambda p: p.set([(0, -1), (1, num("u")), (2, -4), (3, num("v"))]), [3], "set anew")


def c30_reset_end():
    """C08"""
    history([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3)], lambda p: p.reset(Interval(2.5, 9)), [4], "the end cut off")


def c30_reset_and_append():
    """C08"""
    def change(p):
        p.reset(Interval(2.5, 9))
        p.append((3, num("u")))
        p.append((4, -2))
    history([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3)], change, [4], "the end cut off and grown again")


def c30_asked_between():
    """C08 C20"""
    def change(p):
        p.append((4, 3))
        p.append((5, num("u")))
    history([(0, 1), (1, -1), (2, 2), (3, -2)], change, [3, 0, 2], "asked before, in any order")


def c30_asked_during():
    """C06 C08: values read by observers while a change is made"""
    p = Points([(0, 1), (1, -1), (2, 2), (3, -2)])
    e = Extremas(p, 0)
    seen = []

    def read(d):
        seen.append(e.y(2))
    p.add_observer(begin=read, end=read)
    e.y(3)
    p.replace((2, num("u")))
    agrees(e, [(0, 1), (1, -1), (2, num("u")), (3, -2)], lambda x: 0, 0, 3, "read while a change is made")
    same(seen[0], 2, "the old value when a change is announced")
    same(seen[1], e.y(2), "the new value when it is reported")


def c30_reference_changes():
    """C05 C08"""
    p = Points([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3)])
    r = Points([(0, 0), (1, 0), (2, 0), (3, 0), (4, 0)])
    e = Extremas(p, r)
    e.y(4)
    r.replace((2, num("u")))
    agrees(e, p.sample_points(), lambda x: r.y(x), 0, 4, "the reference changes at one position")
    r.replace((3, num("v")))
    agrees(e, p.sample_points(), lambda x: r.y(x), 0, 4, "the reference changes at another")


def c30_changes():
    """C01 C03 C05"""
    p = Points([(0, 1), (1, -1), (2, 2), (3, -2)])
    e = Extremas(p, 0)
    x = num("x")
    assume(x >= 0 and x <= 4)
    bracketed(e, x, lambda: p.append((4, num("u"))), "a point appended")


def c30_derived_follows():
    """C08 C03 C05: a curve computed from the extremas"""
    p = Points([(0, 1), (1, -1), (2, 2), (3, -2)])
    for f in [lambda e: e.integral(), lambda e: e.map(lambda y: 2 * y, skip_none=True).ema(0.5), lambda e: e + 1]:
        p = Points([(0, 1), (1, -1), (2, 2), (3, -2)])
        e = Extremas(p, 0)
        c = f(e)
        for x in [0, 1, 2, 3]:
            c.y(x)
        p.append((4, 3 + pos("u")))
        p.append((5, -3))
        d = f(Extremas(Points([(0, 1), (1, -1), (2, 2), (3, -2), (4, 3 + pos("u")), (5, -3)]), 0))
        for x in [1, 2, 3, 4, 5]:
            same(c.y(x), d.y(x), "computed from the extremas there are now")
