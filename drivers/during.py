"""What is read during an update leaves nothing behind.

Every derived curve is read, at the positions whose values are about to
change, in callbacks for the begin and for the end of an update; what it says
at the end, and afterwards, is what a curve derived afresh says."""
from curvepy import Aggregate, Constant, Curve, Points
from intervalpy import Interval


def points(n=3):
    return Points([(i, num("y%d" % i)) for i in range(n)])


def steady(n=3):
    return Points([(i, i * i + 1) for i in range(n)])


def check_same(d, derive, source, positions, what):
    for x in positions:
        same(d.y(x), derive(source).y(x), what + ": a value")
    check(d.domain == derive(source).domain, what + ": the domain")


def during(source, derive, changes, positions):
    """a plain observer of the source from before the curve was derived, and
    one of the derived curve, both reading at the begin and at the end"""
    held = []

    def read(what):
        log(what, held[0].domain)
        for x in positions:
            log(what, held[0].y(x))

    def end(name):
        check_same(held[0], derive, source, positions, "at the end, to " + name)
    source.add_observer(begin=lambda: read("begin"), end=lambda: end("an observer of the source"))
    d = derive(source)
    held.append(d)
    d.add_observer(begin=lambda: read("begin"), end=lambda: end("an observer of the derived curve"))
    read("before")
    for change in changes:
        change(source)
        check_same(d, derive, source, positions, "after the update")


def append(p):
    n = p.domain.end + 1
    p.append((n, num("v%d" % n)))


def replace_last(p):
    p.replace((p.domain.end, num("last")))


def replace_middle(p):
    p.replace((1, num("middle")))


def fewer(p):
    p.set([(0, num("y0")), (1, num("y1"))])


def cut(p):
    p.reset(Interval.gte(2))


def respaced(p):
    """as many points, further apart"""
    p.set([])
    p.set([(0, num("r0")), (2, num("r1")), (4, num("r2"))])


def empty(p):
    p.set([])


def again(p):
    p.append_list([(i, num("z%d" % i)) for i in range(3)])


def later(p):
    p.append_list([(i, num("z%d" % i)) for i in range(5, 8)])


def doubled(c):
    return c.map(lambda y: 2 * y, skip_none=True)


def indexed(c):
    return c.map(lambda x, y: x + y, skip_none=True)


def two(c):
    return Aggregate([c, Constant(3)], lambda ys: ys[0] - ys[1] if None not in ys else None)


def extended(c):
    return c.extension("constant")


def extended_tangent(c):
    return c.extension("tangent")


def offset(c):
    return c.offset(1)


def restricted(c):
    return c.subset(Interval.closed(0, 5))


def average(c):
    return c.ema(0.5)


def moving(c):
    return c.sma(2)


def trailing(c):
    return c.trailing_max(2)


def summed(c):
    return c.integral()


def sloped(c):
    return c.differential()


def sloped_log(c):
    return (c * c + 1).log()


def least(c):
    return Curve.min([c, Constant(3)])


def first(c):
    return Curve.first([c, Constant(3)])


def chained(c):
    return doubled(c).sma(2).offset(1)


def c06_map_appended():
    """C07"""
    during(points(3), doubled, [append, append], [1, 2, 3])


def c06_map_replaced():
    """C07"""
    during(points(3), doubled, [replace_last, replace_middle], [1, 2, 3])


def c06_map_shrunk():
    """C07"""
    during(points(4), doubled, [fewer, append, append, cut], [1, 2, 3])


def c06_map_emptied():
    """C07"""
    during(points(3), doubled, [empty, again], [1, 2, 3])


def c06_map_indexed_appended():
    """C07"""
    during(points(3), indexed, [append, append], [1, 2, 3])


def c06_map_indexed_replaced():
    """C07"""
    during(points(3), indexed, [replace_last, replace_middle], [1, 2, 3])


def c06_map_indexed_shrunk():
    """C07"""
    during(points(4), indexed, [fewer, append, append, cut], [1, 2, 3])


def c06_map_indexed_emptied():
    """C07"""
    during(points(3), indexed, [empty, again], [1, 2, 3])


def c06_aggregate_appended():
    """C07"""
    during(points(3), two, [append, append], [1, 2, 3])


def c06_aggregate_replaced():
    """C07"""
    during(points(3), two, [replace_last, replace_middle], [1, 2, 3])


def c06_aggregate_shrunk():
    """C07"""
    during(points(4), two, [fewer, append, append, cut], [1, 2, 3])


def c06_aggregate_emptied():
    """C07"""
    during(points(3), two, [empty, again], [1, 2, 3])


def c06_extension_appended():
    """C07 C25"""
    during(points(3), extended, [append, append], [1, 2, 3])


def c06_extension_replaced():
    """C07 C25"""
    during(points(3), extended, [replace_last, replace_middle], [1, 2, 3])


def c06_extension_shrunk():
    """C07 C25"""
    during(points(4), extended, [fewer, append, append, cut], [1, 2, 3])


def c06_extension_emptied():
    """C05 C07 C25"""
    during(points(3), extended, [empty, again], [1, 2, 3])


def c06_tangent_appended():
    """C07 C25"""
    during(points(3), extended_tangent, [append, append], [1, 2, 3])


def c06_tangent_replaced():
    """C07 C25"""
    during(points(3), extended_tangent, [replace_last, replace_middle], [1, 2, 3])


def c06_tangent_shrunk():
    """C07 C25"""
    during(points(4), extended_tangent, [fewer, append, append, cut], [1, 2, 3])


def c06_tangent_emptied():
    """C05 C07 C25"""
    during(points(3), extended_tangent, [empty, again], [1, 2, 3])


def c06_offset_appended():
    """C07"""
    during(points(3), offset, [append, append], [1, 2, 3])


def c06_offset_replaced():
    """C07"""
    during(points(3), offset, [replace_last, replace_middle], [1, 2, 3])


def c06_offset_shrunk():
    """C07"""
    during(points(4), offset, [fewer, append, append, cut], [1, 2, 3])


def c06_offset_emptied():
    """C07"""
    during(points(3), offset, [empty, again], [1, 2, 3])


def c06_subset_appended():
    """C07"""
    during(points(3), restricted, [append, append], [1, 2, 3])


def c06_subset_replaced():
    """C07"""
    during(points(3), restricted, [replace_last, replace_middle], [1, 2, 3])


def c06_subset_shrunk():
    """C07"""
    during(points(4), restricted, [fewer, append, append, cut], [1, 2, 3])


def c06_subset_emptied():
    """C07"""
    during(points(3), restricted, [empty, again], [1, 2, 3])


def c06_ema_appended():
    """C07 C08"""
    during(points(3), average, [append, append], [1, 2, 3])


def c06_ema_replaced():
    """C07 C08"""
    during(points(3), average, [replace_last, replace_middle], [1, 2, 3])


def c06_ema_shrunk():
    """C07 C08"""
    during(points(4), average, [fewer, append, append, cut], [1, 2, 3])


def c06_ema_emptied():
    """C07 C08"""
    during(points(3), average, [empty, again], [1, 2, 3])


def c06_sma_appended():
    """C07 C08"""
    during(points(3), moving, [append, append], [1, 2, 3])


def c06_sma_replaced():
    """C07 C08"""
    during(points(3), moving, [replace_last, replace_middle], [1, 2, 3])


def c06_sma_shrunk():
    """C07 C08"""
    during(points(4), moving, [fewer, append, append, cut], [1, 2, 3])


def c06_sma_emptied():
    """C07 C08"""
    during(points(3), moving, [empty, again], [1, 2, 3])


def c06_trailing_appended():
    """C07 C08"""
    during(points(3), trailing, [append, append], [1, 2, 3])


def c06_trailing_replaced():
    """C07 C08"""
    during(points(3), trailing, [replace_last, replace_middle], [1, 2, 3])


def c06_trailing_shrunk():
    """C07 C08"""
    during(points(4), trailing, [fewer, append], [1, 2, 3])


def c06_trailing_emptied():
    """C07 C08"""
    during(points(3), trailing, [empty, again], [1, 2, 3])


def c06_integral_appended():
    """C07 C08"""
    during(points(3), summed, [append, append], [1, 2, 3])


def c06_integral_replaced():
    """C07 C08"""
    during(points(3), summed, [replace_last, replace_middle], [1, 2, 3])


def c06_integral_shrunk():
    """C07 C08"""
    during(points(4), summed, [fewer, append, append, cut], [1, 2, 3])


def c06_integral_emptied():
    """C07 C08"""
    during(points(3), summed, [empty, again], [1, 2, 3])


def c06_differential_appended():
    """C07"""
    during(points(3), sloped, [append, append], [1, 2, 3])


def c06_differential_replaced():
    """C07"""
    during(points(3), sloped, [replace_last, replace_middle], [1, 2, 3])


def c06_differential_shrunk():
    """C07"""
    during(points(4), sloped, [fewer, append, append, cut], [1, 2, 3])


def c06_differential_emptied():
    """C07"""
    during(points(3), sloped, [empty, again], [1, 2, 3])


def c06_log_appended():
    """C07"""
    during(points(3), sloped_log, [append, append], [1, 2, 3])


def c06_log_replaced():
    """C07"""
    during(points(3), sloped_log, [replace_last, replace_middle], [1, 2, 3])


def c06_log_shrunk():
    """C07"""
    during(points(4), sloped_log, [fewer, append, append, cut], [1, 2, 3])


def c06_log_emptied():
    """C07"""
    during(points(3), sloped_log, [empty, again], [1, 2, 3])


def c06_min_appended():
    """C07"""
    during(points(3), least, [append, append], [1, 2, 3])


def c06_min_replaced():
    """C07"""
    during(points(3), least, [replace_last, replace_middle], [1, 2, 3])


def c06_min_shrunk():
    """C07"""
    during(points(4), least, [fewer, append, append, cut], [1, 2, 3])


def c06_min_emptied():
    """C07"""
    during(points(3), least, [empty, again], [1, 2, 3])


def c06_first_appended():
    """C07"""
    during(points(3), first, [append, append], [1, 2, 3])


def c06_first_replaced():
    """C07"""
    during(points(3), first, [replace_last, replace_middle], [1, 2, 3])


def c06_first_shrunk():
    """C07"""
    during(points(4), first, [fewer, append, append, cut], [1, 2, 3])


def c06_first_emptied():
    """C07"""
    during(points(3), first, [empty, again], [1, 2, 3])


def c06_chain_appended():
    """C07 C08"""
    during(points(3), chained, [append, append], [1, 2, 3])


def c06_chain_replaced():
    """C07 C08"""
    during(points(3), chained, [replace_last, replace_middle], [1, 2, 3])


def c06_chain_shrunk():
    """C07 C08"""
    during(points(4), chained, [fewer, append, append, cut], [1, 2, 3])


def c06_chain_emptied():
    """C07 C08"""
    during(points(3), chained, [empty, again], [1, 2, 3])


def c06_ema_moved():
    """C07 C08"""
    during(points(3), average, [empty, later], [2, 5, 7])


def c06_sma_moved():
    """C07 C08"""
    during(points(3), moving, [empty, later], [2, 5, 7])


def c06_trailing_moved():
    """C07 C08"""
    during(points(3), trailing, [empty, later], [2, 5, 7])


def c06_integral_moved():
    """C07 C08"""
    during(points(3), summed, [empty, later], [2, 5, 7])


def c06_chain_moved():
    """C07 C08"""
    during(points(3), chained, [empty, later], [2, 5, 7])


def c06_tangent_moved():
    """C07 C25"""
    during(points(3), extended_tangent, [empty, later], [2, 5, 7])


def c06_sma_respaced():
    """C07 C08 C16"""
    during(points(3), moving, [respaced], [1, 2, 3, 4])


def c06_ema_respaced():
    """C07 C08 C16"""
    during(points(3), average, [respaced], [1, 2, 3, 4])


def c06_trailing_respaced():
    """C07 C08 C16"""
    during(points(3), trailing, [respaced], [2, 4])


def c06_integral_respaced():
    """C07 C08 C16"""
    during(points(3), summed, [respaced], [1, 2, 3, 4])


def c06_tangent_respaced():
    """C07 C08 C16"""
    during(points(3), extended_tangent, [respaced], [1, 2, 3, 4])


def c06_differential_respaced():
    """C07 C08 C16"""
    during(points(3), sloped, [respaced], [1, 2, 3, 4])


def c06_chain_respaced():
    """C07 C08 C16"""
    during(points(3), chained, [respaced], [1, 2, 3, 4])
