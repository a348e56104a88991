"""Piecewise, blended and restricted curves."""
from curvepy import Curve, Line, Constant, Points, Piecewise
from curvepy.generic import Generic
from curvepy.empty import Empty
from intervalpy import Interval
from _driver_common import Src, bracketed
import math


# --------------------------------------------------------------- values
def c27_ends_open_closed():
    """the boundary belongs to the piece whose interval is closed there"""
    a, b = Src("a"), Src("b")
    t = num("t")
    p = Piecewise([a, b], [Interval.closed(t - 1, t), Interval.open_closed(t, t + 1)])
    same(p.y(t), a.y(t), "the boundary belongs to the piece closed there")
    p = Piecewise([a, b], [Interval.closed_open(t - 1, t), Interval.closed(t, t + 1)])
    same(p.y(t), b.y(t), "the boundary belongs to the piece closed there")
    p = Piecewise([a, b], [Interval.closed_open(t - 1, t), Interval.open_closed(t, t + 1)])
    check(p.y(t) is None, "a boundary open on both sides belongs to none")
    p = Piecewise([a, b], [Interval.open(t - 1, t), Interval.open(t, t + 1)])
    check(p.y(t - 1) is None and p.y(t) is None and p.y(t + 1) is None, "open ends belong to no piece")


def c27_gap():
    """C28: between the pieces there is no value"""
    a, b = Src("a"), Src("b")
    x = num("x")
    s, l = pos("s"), pos("l")
    p = Piecewise([a, b], [Interval.closed(0, s), Interval.closed(s + l, s + l + 5)])
    r = p.y(x)
    if x < 0:
        check(r is None, "nothing before the first piece")
    elif x <= s:
        same(r, a.y(x), "the first piece")
    elif x < s + l:
        check(r is None, "nothing between the pieces")
    elif x <= s + l + 5:
        same(r, b.y(x), "the second piece")
    else:
        check(r is None, "nothing after the last piece")


def c27_unbounded():
    """C28"""
    a, b = Src("a"), Src("b")
    x, t = num("x"), num("t")
    p = Piecewise([a, b], [Interval.lt(t), Interval.gte(t)])
    check(p.domain.is_infinite, "pieces reaching to both infinities")
    same(p.y(x), a.y(x) if x < t else b.y(x), "the pieces on either side of a position")
    p = Piecewise([a, b], [Interval.lte(t), Interval.gt(t)])
    same(p.y(x), a.y(x) if x <= t else b.y(x), "the pieces on either side of a position")


def c27_missing_in_piece():
    """C10: a piece without a value is not filled from another"""
    a, b = Src("a", Interval.closed(0, 4)), Src("b")
    x = num("x")
    p = Piecewise([a, b], [Interval.closed(0, 10), Interval.open_closed(10, 20)])
    assume(x >= 0 and x <= 10)
    same(p.y(x), a.y(x), "the value of the piece, also when missing")


def c27_numbers():
    """C10: numbers, zero included, stand for constants; functions for curves"""
    v = num("v")
    f = fn("f", 1)
    x = num("x")
    p = Piecewise([0, v, f], [(0, 1), (1, 2), (2, 3)])
    if x > 0 and x < 1:
        same(p.y(x), 0, "zero is a value")
    if x > 1 and x < 2:
        same(p.y(x), v, "a number")
    if x > 2 and x < 3:
        same(p.y(x), f(x), "a function")


def c27_count():
    """C02: as many pieces as intervals"""
    a = Src("a")
    check(raised(lambda: Piecewise([a, a], [(0, 1)])), "too few intervals are refused")
    check(raised(lambda: Piecewise([a], [(0, 1), (2, 3)])), "too many intervals are refused")


def raised(f):
    try:
        f()
    except Exception as e:
        return True
    return False


def c27_repeated():
    """one curve for several pieces"""
    a, b = Src("a"), Src("b")
    x = num("x")
    p = Piecewise([a, b, a], [Interval.closed_open(0, 1), Interval.closed_open(1, 2), Interval.closed(2, 3)])
    r = p.y(x)
    if x < 0 or x > 3:
        check(r is None, "nothing outside")
    elif x >= 1 and x < 2:
        same(r, b.y(x), "the middle piece")
    else:
        same(r, a.y(x), "the repeated piece")


def c27_nested():
    a, b, c = Src("a"), Src("b"), Src("c")
    x = num("x")
    p = Piecewise([a, b], [Interval.closed_open(0, 2), Interval.closed(2, 4)])
    q = Piecewise([p, c], [Interval.closed_open(1, 3), Interval.closed(3, 5)])
    check(q.domain == Interval.closed(1, 5), "the union of the intervals")
    r = q.y(x)
    if x < 1 or x > 5:
        check(r is None, "nothing outside")
    elif x < 2:
        same(r, a.y(x), "the inner first piece")
    elif x < 3:
        same(r, b.y(x), "the inner second piece")
    else:
        same(r, c.y(x), "the outer second piece")


def c27_changes():
    """C01 C03 C05: a change of any piece"""
    a, b = Src("a"), Src("b")
    x = num("x")
    p = Piecewise([a, b, a], [Interval.closed_open(0, 1), Interval.closed_open(1, 2), Interval.closed(2, 3)])
    bracketed(p, x, lambda: a.change(Interval.infinite()), "a change of a repeated piece")
    bracketed(p, x, lambda: b.change(Interval.infinite()), "a change of the middle piece")


# --------------------------------------------------------------- steps
def c27_steps_unknown():
    """C28: whatever the pieces answer, a step ends inside the domain"""
    a, b = Src("a"), Src("b")
    x, h = num("x"), pos("h")
    p = Piecewise([a, b], [Interval.closed_open(0, 10), Interval.closed(10, 20)])
    n = p.x_next(x, min_step=h)
    check(n is None or p.domain.contains(n), "a step forward ends inside the domain")
    n = p.x_previous(x, min_step=h)
    check(n is None or p.domain.contains(n), "a step backward ends inside the domain")


def c27_steps_unknown_open():
    """C28"""
    a, b = Src("a"), Src("b")
    x, h = num("x"), pos("h")
    p = Piecewise([a, b], [Interval.open(0, 10), Interval.open(10, 20)])
    n = p.x_next(x, min_step=h)
    check(n is None or (n > 0 and n < 20 and n != 10), "a step forward ends inside a piece")
    n = p.x_previous(x, min_step=h)
    check(n is None or (n > 0 and n < 20 and n != 10), "a step backward ends inside a piece")


def two_pieces():
    a = Points([(0, num("a0")), (2, num("a2")), (4, num("a4")), (6, num("a6"))])
    b = Points([(3, num("b3")), (5, num("b5")), (7, num("b7")), (9, num("b9"))])
    return Piecewise([a, b], [Interval.closed_open(0, 4), Interval.closed(4, 9)])


def c27_steps_points():
    """the points of each piece inside its interval"""
    p = two_pieces()
    check(p.x_next(0) == 2, "to the next point")
    check(p.x_next(2) == 4 and p.x_next(4) == 5, "into the second piece")
    check(p.x_next(5) == 7 and p.x_next(7) == 9, "on in the second piece")
    check(p.x_next(9) is None, "no step from the end")
    check(p.x_previous(9) == 7 and p.x_previous(7) == 5, "back in the second piece")
    check(p.x_previous(5) == 4 and p.x_previous(4) == 2, "back into the first piece")
    check(p.x_previous(2) == 0, "back in the first piece")
    check(p.x_previous(0) is None, "no step back from the start")


def c27_steps_between_points():
    p = two_pieces()
    x = num("x")
    assume(x >= 0 and x <= 9)
    n, q = p.x_next(x), p.x_previous(x)
    check(n is None or (n > x and n <= 9), "a step forward is forward, inside the domain")
    check(q is None or (q < x and q >= 0), "a step backward is backward, inside the domain")
    if x > 2.1 and x < 3.9:
        check(n == 4 or n == 5, "into the second piece")
        check(q == 2, "the last point of the first piece inside its interval")
    if x > 4.1 and x < 4.9:
        check(n == 5, "the first point of the second piece inside its interval")


def c27_steps_length():
    """C14"""
    p = two_pieces()
    n = p.x_next(0, min_step=3)
    check(n >= 3 and n <= 5, "at least the step given")
    n = p.x_previous(9, min_step=3)
    check(n <= 6 and n >= 4, "at least the step given, back")
    check(p.x_next(0, min_step=100) is None and p.x_previous(9, min_step=100) is None, "no step out of the domain")


def c27_sample():
    """C23"""
    p = two_pieces()
    ps = p.sample_points()
    check([q[0] for q in ps] == [0, 2, 4, 5, 7, 9], "the points of both pieces, in order, and where the second begins")
    same(ps[0][1], num("a0"), "the value of the first piece")
    same(ps[3][1], num("b5"), "the value of the second piece")


def c27_steps_constants():
    """C28: into each piece at its start, to the end of the last"""
    u, v, w = num("u"), num("v"), num("w")
    p = Piecewise([u, v, w], [Interval.closed_open(0, 2), Interval.closed_open(2, 5), Interval.closed(5, 9)])
    check(p.x_next(0) == 2 and p.x_next(1) == 2 and p.x_next(2) == 5 and p.x_next(5) == 9, "from piece to piece")
    check(p.x_next(9) is None, "no step from the end")
    check(p.x_previous(9) == 5 and p.x_previous(5) == 2 and p.x_previous(4) == 2, "back from piece to piece")
    check(p.x_previous(2) == 0 and p.x_previous(0) is None, "to the start and no further")
    ps = p.sample_points()
    check([q[0] for q in ps] == [0, 2, 5, 9], "the ends of the pieces are sampled")
    same([q[1] for q in ps], [u, v, w, w], "with the values there")


def c27_steps_gap():
    """C28: over a gap"""
    p = Piecewise([num("u"), num("v")], [Interval.closed(0, 2), Interval.closed(5, 9)])
    check(p.x_next(0) == 2 and p.x_next(2) == 5 and p.x_next(5) == 9, "over the gap")
    check(p.x_previous(9) == 5 and p.x_previous(5) == 2 and p.x_previous(2) == 0, "back over the gap")


def c27_steps_gap_points():
    """C28: over a gap between pieces without their ends"""
    a = Points([(i, num("a%d" % i)) for i in range(10)])
    b = Points([(i, num("b%d" % i)) for i in range(10)])
    p = Piecewise([a, b], [Interval.closed_open(0, 2), Interval.open_closed(5, 9)])
    check(p.x_next(0) == 1 and p.x_next(1) == 6 and p.x_next(6) == 7, "over the gap to the next position")
    check(p.x_next(3) == 6 and p.x_next(3.5) == 6 and p.x_next(5) == 6, "out of the gap")
    check(p.x_previous(9) == 8 and p.x_previous(7) == 6 and p.x_previous(6) == 1 and p.x_previous(1) == 0, "back over the gap to the previous position")
    check(p.x_previous(4) == 1 and p.x_previous(3.5) == 1 and p.x_previous(2) == 1, "back out of the gap")


def c27_steps_halves():
    """C28: pieces that reach to infinity"""
    t = num("t")
    p = Piecewise([num("u"), num("v")], [Interval.lt(t), Interval.gte(t)])
    check(p.x_next(t - 1) == t, "to where the second piece begins")
    check(p.x_previous(t + 1) == t, "back to where the second piece begins")


def c27_steps_all():
    """C28: forward means forward"""
    p = Piecewise([num("u"), Points([(3, num("b3")), (5, num("b5")), (7, num("b7"))])], [Interval.closed_open(0, 4), Interval.closed(4, 6)])
    x, h = num("x"), 1 + pos("h")
    assume(x >= 0 and x <= 6)
    n, q = p.x_next(x, min_step=h), p.x_previous(x, min_step=h)
    check(n is None or (n >= x + h and n <= 6), "a step forward has at least the length given and ends inside")
    check(q is None or (q <= x - h and q >= 0), "a step backward has at least the length given and ends inside")
    if x + h <= 6:
        check(n is not None, "there is a step forward while there is room")
    if x - h >= 0:
        check(q is not None, "there is a step backward while there is room")


# --------------------------------------------------------------- blends
def c27_blend_ends():
    """at the start of the window the first curve, at its end the second"""
    a, b = Src("a"), Src("b")
    s, l = num("s"), pos("l")
    c = a.blend(b, s, s + l)
    check(c.domain.is_infinite, "the domain of the first curve")
    u, v = a.y(s), b.y(s)
    r = c.y(s)
    if u is None or v is None:
        check(r is None or r == u, "missing where one is missing")
    else:
        same(r, u, "the first curve at the start of the window")
    same(c.y(s + l), b.y(s + l), "the second curve at the end of the window")
    x = pos("x")
    same(c.y(s - x), a.y(s - x), "the first curve before")
    same(c.y(s + l + x), b.y(s + l + x), "the second curve after")


def c27_blend_mix():
    """C10"""
    a, b = Src("a"), Src("b")
    s, l = num("s"), pos("l")
    t = num("t")
    assume(t > 0 and t < 1)
    x = s + t * l
    assume(x > s and x < s + l)
    u, v = a.y(x), b.y(x)
    r = a.blend(b, s, s + l).y(x)
    if u is None or v is None:
        check(r is None, "missing where one is missing")
    else:
        same(r, (1 - t) * u + t * v, "the mix in proportion to the position")


def c27_blend_lengths():
    """the mix of windows short and long, early and late"""
    a, b = Line(const=num("a"), slope=num("m")), Constant(num("b"))
    for s, l in [(0, 1), (0, 0.25), (-3, 8), (0, 200), (1000, 5000), (-70000, 131072)]:
        c = a.blend(b, s, s + l)
        for t in [0, 0.125, 0.5, 0.75, 0.875]:
            x = s + t * l
            same(c.y(x), (1 - t) * a.y(x) + t * b.y(x), "the mix in proportion to the position")


def c27_blend_window():
    """C28: windows reaching over the domain or lying outside it"""
    b = Src("b")
    x = num("x")
    for s, e in [(-5, 5), (5, 15), (-5, 15), (-9, -5), (12, 15)]:
        a = Src("a", Interval.closed(0, 10))
        c = a.blend(b, s, e)
        r = c.y(x)
        check(c.domain == Interval.closed(0, 10), "the domain of the first curve")
        if x < 0 or x > 10:
            check(r is None, "nothing outside the first curve's domain")
        elif x < s:
            same(r, a.y(x), "the first curve before the window")
        elif x > e:
            same(r, b.y(x), "the second curve after the window")


def c27_blend_of_points():
    """C10: zero is a value"""
    a = Points([(0, 0), (4, num("a"))])
    b = Points([(0, num("b")), (4, 0)])
    c = a.blend(b, 1, 3)
    same(c.y(0), 0, "zero before the window")
    same(c.y(2), 0.5 * num("a") / 2 + 0.5 * num("b") / 2, "the mix of the interpolated values")
    same(c.y(4), 0, "zero after the window")


def c27_blend_number():
    """C14: into a number"""
    a = Src("a")
    c = a.blend(0, 0, 10)
    x = num("x")
    if x >= 10:
        same(c.y(x), 0, "zero after the window")
    elif x > 0 and x < 10:
        u = a.y(x)
        if u is None:
            check(c.y(x) is None, "missing where the curve is")
        else:
            same(c.y(x), (1 - x / 10) * u, "faded to zero")


def c27_blend_changes():
    """C01 C03 C05"""
    a, b = Src("a"), Src("b")
    x = num("x")
    c = a.blend(b, 0, 10)
    d = ival("d")
    b.begin_update(d)
    check(c.is_updating, "announced")
    b.end_update(d)
    check(not c.is_updating, "reported")
    a.begin_update(d)
    check(c.is_updating, "announced")
    a.end_update(d)
    check(not c.is_updating, "reported")


def c27_blend_follows():
    """C07 C08: the domain of the first curve grows into the window and beyond"""
    a = Points([(0, num("a0")), (4, num("a4"))])
    b = Points([(0, num("b0")), (4, num("b4")), (8, num("b8")), (12, num("b12"))])
    c = a.blend(b, 4, 8)
    check(c.domain == Interval.closed(0, 4), "the domain of the first curve")
    check(c.y(6) is None and c.y(8) is None, "nothing beyond")
    a.append((8, num("a8")))
    check(c.domain == Interval.closed(0, 8), "the grown domain")
    same(c.y(6), 0.5 * (num("a4") + num("a8")) / 2 + 0.5 * (num("b4") + num("b8")) / 2, "the mix in the grown part")
    same(c.y(8), num("b8"), "the second curve at the end of the window")
    a.append((12, num("a12")))
    check(c.domain == Interval.closed(0, 12), "the domain grown again")
    same(c.y(12), num("b12"), "the second curve after the window")
    a.reset()
    check(c.domain.is_empty, "nothing is left")
    check(c.y(4) is None, "no value is left")


# --------------------------------------------------------------- restricted
def c27_subset_open():
    """C28"""
    a = Src("a")
    t = num("t")
    s = a.subset(Interval.open(t, t + 1))
    check(s.y(t) is None and s.y(t + 1) is None, "open ends have no value")
    s = a.subset(Interval.closed(t, t + 1))
    same(s.y(t), a.y(t), "closed ends have the value")
    same(s.y(t + 1), a.y(t + 1), "closed ends have the value")
    s = a.subset((t, t + 1))
    same(s.y(t + 0.5), a.y(t + 0.5), "a pair of numbers")


def c27_subset_of_points():
    """C10 C23"""
    p = Points([(0, num("u")), (1, 0), (2, num("w"))])
    s = p.subset(Interval.closed(1, 2))
    check(s.y(0) is None and s.y(0.5) is None, "nothing outside the interval")
    same(s.y(1), 0, "zero at the start")
    same(s.y(2), num("w"), "the value at the end")
    check(s.domain == Interval.closed(1, 2), "the interval given")
    check(s.first_point() == (1, 0), "the first point")


def c27_subset_twice():
    a = Src("a")
    x = num("x")
    s = a.subset(Interval.closed(0, 10)).subset(Interval.closed(5, 20))
    r = s.y(x)
    if x >= 5 and x <= 10:
        same(r, a.y(x), "inside both intervals")
    else:
        check(r is None, "outside one of the intervals")


def c27_subset_changes():
    """C01 C03 C05 C08"""
    p = Points([(0, num("u")), (1, num("v"))])
    s = p.subset(Interval.closed(0, 10))
    x = num("x")
    s.y(x)
    bracketed(s, x, lambda: p.append((2, num("w"))), "a point appended")
    bracketed(s, x, lambda: p.replace((1, num("z"))), "a point replaced")
    same(s.y(x), Points([(0, num("u")), (1, num("z")), (2, num("w"))]).y(x) if x >= 0 else None, "the present values")
