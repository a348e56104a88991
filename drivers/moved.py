"""C05 C06 C07 C08: curves built while their source was empty or lay elsewhere altogether follow it as any other does."""
from _driver_common import Src, watch
from curvepy import (Curve, Points, Aggregate, Piecewise, EMA, SMA, Extremas, Quotes, Accumulator, Generic)
from curvepy.extension import ConstantExtension, TangentExtension
from intervalpy import Interval
import math


def follows(make, what, x=None):
    for first in [[], [(10, 1), (11, 5), (12, 2), (13, 4)], [(-13, 1), (-12, 5), (-11, 2), (-10, 4)]]:
        ys = [num("y0"), num("y1"), num("y2"), num("y3")]
        if x is None:
            x = 2.5
        p = Points(first)
        c = make(p)
        if len(first) != 0:
            c.y(first[1][0])
        c.domain
        p.set([(i, ys[i]) for i in range(4)])
        f = make(Points([(i, ys[i]) for i in range(4)]))
        check(c.domain == f.domain, what + ": the domain after its source moved")
        old = f.y(x)
        same(c.y(x), old, what + ": the value after its source moved")
        seen = []
        c.add_observer(begin=lambda d: seen.append((0, d, c.y(x))), end=lambda d: seen.append((1, d, c.y(x), c.domain)))
        changed(c, make, p, seen, lambda: p.replace((2, num("v"))), [ys[0], ys[1], num("v"), ys[3]], old, x, what + ", a point replaced")
        old = c.y(x)
        changed(c, make, p, seen, lambda: p.replace((3, num("w"))), [ys[0], ys[1], num("v"), num("w")], old, x, what + ", the last replaced")
        changed(c, make, p, seen, lambda: p.append((4, num("z"))), [ys[0], ys[1], num("v"), num("w"), num("z")], c.y(3.5), 3.5, what + ", a point appended")


def changed(c, make, p, seen, change, values, old, x, what):
    del seen[:]
    f = make(Points([(i, values[i]) for i in range(len(values))]))
    change()
    check(len(seen) == 2, what + ": announced and reported, once")
    if len(seen) == 2:
        check(seen[0][0] == 0 and seen[1][0] == 1, what + ": announced first")
        if x == 2.5:
            same(seen[0][2], old, what + ": the old value when announced")
            same(seen[1][2], f.y(x), what + ": the new value when reported")
        check(seen[1][3] == f.domain, what + ": the new domain when reported")
    same(c.y(x), f.y(x), what + ": the new value afterwards")
    check(c.domain == f.domain, what + ": the new domain afterwards")


def c05_moved_map():
    follows(lambda p: p.map(lambda y: 2 * y, skip_none=True), "a map")


def c05_moved_sum():
    """C11"""
    follows(lambda p: p + 1, "a sum")


def c05_moved_sum_of_two():
    """C11"""
    follows(lambda p: p * p.map(lambda y: y + 1, skip_none=True), "a product")


def c05_moved_first():
    """C12"""
    follows(lambda p: Curve.first([p, 7]), "the first")


def c05_moved_max():
    """C12"""
    follows(lambda p: Curve.max([p, 7], ignore_empty=True), "the greatest")


def c05_moved_subset():
    follows(lambda p: p.subset(Interval.gte(-100)), "a subset")


def c05_moved_pieces():
    """C27"""
    follows(lambda p: Piecewise([p, -p], [Interval.lt(2), Interval.gte(2)]), "pieces")


def c05_moved_blend():
    """C27"""
    follows(lambda p: p.blend(Curve.const(3), 2, 3), "a blend")


def c05_moved_blend_into():
    """C27"""
    follows(lambda p: Curve.const(3).blend(p, 1, 2), "a blend into the points")


def c05_moved_offset():
    """C15"""
    follows(lambda p: p.offset(-0.5), "an offset")


def c05_moved_offset_steps():
    """C15"""
    follows(lambda p: p.offset(0, duration="1s"), "an offset by no step")


def c05_moved_differential():
    """C34"""
    follows(lambda p: p.differential(), "a differential")


def c05_moved_accumulator():
    """C26"""
    follows(lambda p: Accumulator(p, lambda x, y, a: y + (0 if a is None else a)), "an accumulation")


def c05_moved_trailing():
    """C26"""
    follows(lambda p: p.accumulator_map(lambda ys: ys[0] - ys[-1], 2), "a trailing difference")


def c05_moved_ema():
    """C26"""
    follows(lambda p: p.ema(0.5), "an average")


def c05_moved_ema_from():
    """C26"""
    follows(lambda p: Points([(i, i * i) for i in range(5)]).ema(0.5, init=p), "an average begun with the points")


def c05_moved_ema_of_both():
    """C26"""
    follows(lambda p: p.ema(0.5, init=p.map(lambda y: y + 1, skip_none=True)), "an average begun otherwise")


def c05_moved_integral():
    """C26"""
    follows(lambda p: p.integral(), "an integral")


def c05_moved_sma():
    """C13"""
    follows(lambda p: p.sma(2), "a simple average")


def c05_moved_smma():
    """C13"""
    follows(lambda p: p.smma(2), "a smoothed average")


def c05_moved_constant_extension():
    """C25"""
    follows(lambda p: p.extension("constant", start=True, end=True), "an extension")


def c05_moved_constant_extension_end():
    """C25"""
    follows(lambda p: p.extension("constant"), "an extension of the end")


def c05_moved_constant_extension_start():
    """C25"""
    follows(lambda p: p.extension("constant", start=True, end=False), "an extension of the start")


def c05_moved_tangent_extension():
    """C25"""
    follows(lambda p: p.extension("tangent", start=True, end=True), "an extension by tangents")


def c05_moved_chain():
    follows(lambda p: -(-p).ema(0.5), "a chain")


def c05_moved_extension_beyond():
    """C25"""
    follows(lambda p: p.extension("constant", start=True, end=True), "an extension, beyond", 5)


def c05_moved_extremas():
    """C30"""
    for first in [[], [(10, 1), (11, -5), (12, 2), (13, -4)], [(-13, 1), (-12, -5), (-11, 2), (-10, -4)]]:
        p = Points(first)
        e = Extremas(p, Curve.const(0))
        if len(first) != 0:
            e.y(first[1][0])
        p.set([(0, 1), (1, -2), (2, 3), (3, -4), (4, 1)])
        check(e.y(0.5) == -0.5, "the extremas after their source moved")
        forget_log()
        watch(e, "e")
        p.replace((1, -4))
        check(len(logged("e.begin")) == 1 and len(logged("e.end")) == 1, "extremas moved, a point replaced: announced and reported, once")
        check(e.y(0.5) == -1.5, "the extremas after a point was replaced")
        p.append((5, -9))
        check(e.y(3.5) == -1.5, "the extremas after a point was appended")


# ------------------------------------------- points put in and taken out between the others
def between(make, what, xs=(0, 0.5, 1, 2, 3, 4, 5, 6)):
    ys = [num("y0"), num("y1"), num("y2"), num("y3")]
    p = Points([(0, ys[0]), (1, ys[1]), (4, ys[2]), (6, ys[3])], uniform=False)
    c = make(p)
    c.domain
    for x in xs:
        c.y(x)
    told = []
    c.add_observer(end=lambda d: told.append(d))
    p.replace((2, num("v")))
    as_new(c, make, [(0, ys[0]), (1, ys[1]), (2, num("v")), (4, ys[2]), (6, ys[3])], xs, what + ", a point put in")
    check(len(told) == 1, what + ", a point put in: reported once")
    p.reset(Interval.closed(1, 1))
    as_new(c, make, [(0, ys[0]), (2, num("v")), (4, ys[2]), (6, ys[3])], xs, what + ", a point taken out")
    check(len(told) == 2, what + ", a point taken out: reported once")
    p.reset(Interval.closed(6, 6))
    as_new(c, make, [(0, ys[0]), (2, num("v")), (4, ys[2])], xs, what + ", the last taken out")
    p.append((6, num("w")))
    as_new(c, make, [(0, ys[0]), (2, num("v")), (4, ys[2]), (6, num("w"))], xs, what + ", another appended")


def as_new(c, make, points, xs, what):
    f = make(Points(points, uniform=False))
    check(c.domain == f.domain, what + ": the domain is that of a new curve")
    for x in xs:
        same(c.y(x), f.y(x), what + ": the value is that of a new curve")
        same(c.x_next(x), f.x_next(x), what + ": the next position is that of a new curve")
        same(c.x_previous(x), f.x_previous(x), what + ": the previous position is that of a new curve")


def c08_between_sma():
    """C07 C13"""
    between(lambda p: p.sma(2, uniform=False), "a simple average")


def c08_between_sma_of_three():
    """C07 C13"""
    between(lambda p: p.sma(3, uniform=False), "a simple average of three")


def c08_between_sma_period():
    """C07 C13"""
    between(lambda p: p.sma(2, is_period=True, uniform=False), "a simple average of a period")


def c08_between_ema():
    """C07 C26"""
    between(lambda p: p.ema(0.5, uniform=False), "an average")


def c08_between_smma():
    """C07 C13"""
    between(lambda p: p.smma(2, uniform=False), "a smoothed average")


def c08_between_integral():
    """C07 C26"""
    between(lambda p: p.integral(uniform=False), "an integral")


def c08_between_trailing():
    """C07 C26"""
    between(lambda p: p.accumulator_map(lambda ys: ys[0] - ys[-1], 2, uniform=False), "a trailing difference")


def c08_between_trailing_period():
    """C07 C26"""
    between(lambda p: p.accumulator_map(lambda ys: ys[0] - ys[-1], 2, is_period=True, uniform=False), "a trailing difference of a period")


def c08_between_differential():
    """C07 C34"""
    between(lambda p: p.differential(), "a differential")


def c08_between_sum():
    """C07 C11"""
    between(lambda p: p + p.offset(1), "a sum")


def c08_between_extension():
    """C07 C25"""
    between(lambda p: p.extension("constant", start=True), "an extension", (-1, 0, 0.5, 2, 5, 6, 8))


def c08_between_tangent():
    """C07 C25"""
    between(lambda p: p.extension("tangent", start=True, regression_degree=1), "an extension by regression", (-1, 0, 0.5, 2, 5, 6, 8))


def c08_between_pieces():
    """C07 C27"""
    between(lambda p: Piecewise([p, -p], [Interval.lt(2), Interval.gte(2)]), "pieces")
