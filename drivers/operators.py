"""C11 / C12: point-wise arithmetic and selection of curves."""
from _driver_common import Src
from curvepy import Curve, Aggregate, Constant, Line, Points
from intervalpy import Interval
import math


def two():
    a = Src("a")
    b = Src("b")
    x = num("x")
    return a, b, x, a.y(x), b.y(x)


def agree(actual, u, v, op, what):
    """point-wise, and missing as soon as one operand is missing"""
    if u is None or v is None:
        check(actual is None, what + ": missing where an operand is missing")
    else:
        same(actual, op(u, v), what)


def ADD(u, v):
    return u + v


def SUB(u, v):
    return u - v


def MUL(u, v):
    return u * v


def c11_sum():
    """C10"""
    a, b, x, u, v = two()
    agree((a + b).y(x), u, v, ADD, "a + b")
    agree(a.add(b).y(x), u, v, ADD, "a.add(b)")
    agree(Curve.add_many([a, b]).y(x), u, v, ADD, "Curve.add_many([a, b])")
    agree(Curve.add_many(a, b).y(x), u, v, ADD, "Curve.add_many(a, b)")


def c11_difference():
    """C10"""
    a, b, x, u, v = two()
    agree((a - b).y(x), u, v, SUB, "a - b")
    agree(a.subtract(b).y(x), u, v, SUB, "a.subtract(b)")
    agree(Curve.subtract_many([a, b]).y(x), u, v, SUB, "Curve.subtract_many([a, b])")
    agree(Curve.subtract_many(a, b).y(x), u, v, SUB, "Curve.subtract_many(a, b)")


def c11_product():
    """C10"""
    a, b, x, u, v = two()
    agree((a * b).y(x), u, v, MUL, "a * b")
    agree(a.multiply(b).y(x), u, v, MUL, "a.multiply(b)")
    agree(Curve.multiply_many([a, b]).y(x), u, v, MUL, "Curve.multiply_many([a, b])")
    agree(Curve.multiply_many(a, b).y(x), u, v, MUL, "Curve.multiply_many(a, b)")


def quotient(actual, u, v, what):
    if u is None or v is None:
        check(actual is None, what + ": missing where an operand is missing")
    elif v == 0:
        if u >= 0:
            same(actual, math.inf, what + ": +inf for a non-negative value over zero")
        else:
            same(actual, -math.inf, what + ": -inf for a negative value over zero")
    else:
        same(actual, u / v, what)


def c11_quotient():
    """C10"""
    a, b, x, u, v = two()
    quotient((a / b).y(x), u, v, "a / b")
    quotient(a.divide(b).y(x), u, v, "a.divide(b)")
    quotient(Curve.divide_many([a, b]).y(x), u, v, "Curve.divide_many([a, b])")
    quotient(Curve.divide_many(a, b).y(x), u, v, "Curve.divide_many(a, b)")


def c11_power():
    """C10"""
    a, b, x, u, v = two()
    if u is not None:
        assume(u > 0)
    r = (a ** b).y(x)
    r2 = a.pow(b).y(x)
    r3 = b.raised(a).y(x)
    r4 = Curve.pow_many([a, b]).y(x)
    r5 = Curve.pow_many(a, b).y(x)
    if u is None or v is None:
        for q in [r, r2, r3, r4, r5]:
            check(q is None, "a ** b: missing where an operand is missing")
    else:
        e = u ** v
        same(r, e, "a ** b")
        same(r2, e, "a.pow(b)")
        same(r3, e, "b.raised(a) is a ** b")
        same(r4, e, "Curve.pow_many([a, b])")
        same(r5, e, "Curve.pow_many(a, b)")


def c11_logarithm():
    """C10"""
    a, b, x, u, v = two()
    if u is not None:
        assume(u > 0)
    if v is not None:
        assume(v > 0)
        assume(v != 1)
    r = a.log(b).y(x)
    r2 = Curve.log_many([a, b]).y(x)
    r3 = a.log().y(x)
    r4 = a.log(10).y(x)
    if u is None:
        check(r3 is None, "a.log(): missing where a is missing")
        check(r4 is None, "a.log(10): missing where a is missing")
    else:
        same(r3, math.log(u), "a.log() is the natural logarithm")
        same(r4, math.log(u, 10), "a.log(10)")
    if u is None or v is None:
        check(r is None, "a.log(b): missing where an operand is missing")
        check(r2 is None, "log_many: missing where an operand is missing")
    else:
        same(r, math.log(u, v), "a.log(b)")
        same(r2, math.log(u, v), "Curve.log_many([a, b])")


def c11_scalars():
    """a number, on either side, is the constant curve"""
    a = Src("a")
    x = num("x")
    k = num("k")
    u = a.y(x)
    rs = [(a + k).y(x), (k + a).y(x), (a - k).y(x), (k - a).y(x), (a * k).y(x), (k * a).y(x)]
    if u is None:
        for r in rs:
            check(r is None, "a value and a number: missing where the curve is missing")
    else:
        same(rs[0], u + k, "a + k")
        same(rs[1], k + u, "k + a")
        same(rs[2], u - k, "a - k")
        same(rs[3], k - u, "k - a")
        same(rs[4], u * k, "a * k")
        same(rs[5], k * u, "k * a")


def c11_scalar_quotients():
    a = Src("a")
    x = num("x")
    k = num("k")
    u = a.y(x)
    quotient((a / k).y(x), u, k, "a / k")
    quotient((k / a).y(x), k, u, "k / a")


def c11_scalar_powers():
    a = Src("a")
    x = num("x")
    k = pos("k")
    u = a.y(x)
    if u is not None:
        assume(u > 0)
    r = (a ** k).y(x)
    r2 = (k ** a).y(x)
    r3 = a.pow(k).y(x)
    r4 = a.raised(k).y(x)
    if u is None:
        check(r is None and r2 is None and r3 is None and r4 is None, "powers: missing where the curve is missing")
    else:
        same(r, u ** k, "a ** k")
        same(r2, k ** u, "k ** a")
        same(r3, u ** k, "a.pow(k)")
        same(r4, k ** u, "a.raised(k)")


def c11_unary():
    """C10"""
    a = Src("a")
    x = num("x")
    u = a.y(x)
    n = (-a).y(x)
    p = (+a).y(x)
    m = abs(a).y(x)
    m2 = a.abs().y(x)
    n2 = a.additive_inverse().y(x)
    if u is None:
        check(n is None and p is None and m is None and m2 is None and n2 is None, "unary operators: missing where the curve is missing")
    else:
        same(n, -u, "-a")
        same(n2, -u, "a.additive_inverse()")
        same(p, u, "+a")
        if u >= 0:
            same(m, u, "abs(a)")
            same(m2, u, "a.abs()")
        else:
            same(m, -u, "abs(a)")
            same(m2, -u, "a.abs()")


def c11_inverse():
    """C10"""
    a = Src("a")
    x = num("x")
    u = a.y(x)
    r = a.multiplicative_inverse().y(x)
    if u is None:
        check(r is None, "1 / a: missing where the curve is missing")
    elif u == 0:
        check(r == math.inf, "the inverse of zero is infinite, as the quotient 1 / a is")
    else:
        same(r, 1 / u, "a.multiplicative_inverse()")


def c11_three_operands():
    """C10: every operand takes part, from left to right"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    s = Curve.add_many([a, b, c]).y(x)
    d = Curve.subtract_many([a, b, c]).y(x)
    m = Curve.multiply_many([a, b, c]).y(x)
    if u is None or v is None or w is None:
        check(s is None, "add_many: missing where any of three operands is missing")
        check(d is None, "subtract_many: missing where any of three operands is missing")
        check(m is None, "multiply_many: missing where any of three operands is missing")
    else:
        same(s, u + v + w, "add_many of three")
        same(d, u - v - w, "subtract_many of three")
        same(m, u * v * w, "multiply_many of three")


def c11_three_operand_quotient():
    """C10"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    if v is not None:
        assume(v != 0)
    if w is not None:
        assume(w != 0)
    q = Curve.divide_many([a, b, c]).y(x)
    if u is None or v is None or w is None:
        check(q is None, "divide_many: missing where any of three operands is missing")
    else:
        same(q, u / v / w, "divide_many of three")


def c11_quotient_by_zero_among_several():
    """C10: dividing goes on after a division by zero"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    q = Curve.divide_many([a, b, c]).y(x)
    if u is None or v is None or w is None:
        check(q is None, "divide_many: missing where any of three operands is missing")
        return
    if v == 0:
        first = math.inf if u >= 0 else -math.inf
        if w == 0:
            same(q, first, "divide_many: infinite over zero")
        elif w > 0:
            same(q, first, "divide_many: an infinite value over a positive one")
        else:
            same(q, -first, "divide_many: an infinite value over a negative one")


def c11_several_powers_and_logarithms():
    """C10"""
    a = Src("a")
    x = num("x")
    u = a.y(x)
    b = Src("b")
    v = b.y(x)
    p = Curve.pow_many([a, 2, b]).y(x)
    m = Curve.add_many([a, 2, b, 0]).y(x)
    d = Curve.subtract_many([2, a, b]).y(x)
    e = Curve.multiply_many([a, 0, b]).y(x)
    if u is None or v is None:
        check(p is None, "pow_many: missing where an operand is missing")
        check(m is None, "add_many: missing where an operand is missing")
        check(d is None, "subtract_many: missing where an operand is missing")
        check(e is None, "multiply_many: missing where an operand is missing, also beside zero")
    else:
        same(p, (u ** 2) ** v, "pow_many: in order")
        same(m, u + 2 + v, "add_many with numbers")
        same(d, 2 - u - v, "subtract_many with numbers")
        same(e, 0, "multiply_many by zero")


def c11_same_operand_twice():
    a = Src("a")
    x = num("x")
    u = a.y(x)
    s = (a + a).y(x)
    m = (a * a).y(x)
    d = (a - a).y(x)
    if u is not None:
        same(s, 2 * u, "a + a")
        same(m, u * u, "a * a")
        same(d, 0, "a - a")


def c11_expression_trees():
    """operators compose"""
    a, b, x, u, v = two()
    k = num("k")
    r = ((a + b) * k - a).y(x)
    if u is None or v is None:
        check(r is None, "(a + b) * k - a: missing where an operand is missing")
    else:
        same(r, (u + v) * k - u, "(a + b) * k - a")


def c11_functions_as_operands():
    """C28: plain functions and numbers are accepted wherever curves are"""
    a = Src("a")
    x = num("x")
    f = fn("f", 1, "num")
    r = Curve.add_many([a, f, 3]).y(x)
    u = a.y(x)
    if u is None:
        check(r is None, "sum with a function and a number: missing where the curve is missing")
    else:
        same(r, u + f(x) + 3, "sum of a curve, a function and a number")


# ------------------------------------------------------------------ selection


def c12_first_of_numbers():
    """C10 C32: a number or a descriptor stands for the curve it describes"""
    a = Src("a")
    x = num("x")
    k = num("k")
    u = a.y(x)
    e = k if u is None else u
    same(Curve.first([a, k]).y(x), e, "first([a, k]) is k where a has no value")
    same(Curve.first(a, k).y(x), e, "first(a, k) is k where a has no value")
    same(Curve.first([a, {"$constant": k}]).y(x), e, "first([a, a descriptor])")
    same(Curve.first({"$constant": k}, a).y(x), k, "first(a descriptor, a)")


def c12_first():
    """C10"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    r = Curve.first([a, b, c]).y(x)
    r2 = Curve.first(a, b, c).y(x)
    if u is not None:
        e = u
    elif v is not None:
        e = v
    else:
        e = w
    same(r, e, "first([a, b, c]) is the first present value, zero included")
    same(r2, e, "first(a, b, c) is the first present value, zero included")


def lesser(u, v):
    return u if u <= v else v


def greater(u, v):
    return u if u >= v else v


def c12_min_max_present():
    a, b, x, u, v = two()
    assume(u is not None)
    assume(v is not None)
    same(Curve.min([a, b]).y(x), lesser(u, v), "min([a, b])")
    same(Curve.min(a, b).y(x), lesser(u, v), "min(a, b)")
    same(Curve.max([a, b]).y(x), greater(u, v), "max([a, b])")
    same(Curve.max(a, b).y(x), greater(u, v), "max(a, b)")


def c12_min_max_missing():
    """C10: a missing value is passed over while another is present"""
    a, b, x, u, v = two()
    lo = Curve.min([a, b]).y(x)
    hi = Curve.max(a, b).y(x)
    if u is None:
        same(lo, v, "min beside a missing value")
        same(hi, v, "max beside a missing value")
    elif v is None:
        same(lo, u, "min before a missing value")
        same(hi, u, "max before a missing value")


def c12_min_max_of_three_missing():
    """C10"""
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    for ignore in [False, True]:
        lo = Curve.min([a, b, c], ignore_empty=ignore).y(x)
        hi = Curve.max([a, b, c], ignore_empty=ignore).y(x)
        present = [y for y in [u, v, w] if y is not None]
        if len(present) == 0:
            check(lo is None and hi is None, "no value among none")
        else:
            check(lo is not None and hi is not None, "a value while one is present")
            if len(present) == 2:
                same(lo, lesser(present[0], present[1]), "min of the two present")
                same(hi, greater(present[0], present[1]), "max of the two present")
            elif len(present) == 1:
                same(lo, present[0], "min of the one present")
                same(hi, present[0], "max of the one present")


def c12_min_max_ignoring_empty():
    """C10"""
    a, b, x, u, v = two()
    lo = Curve.min([a, b], ignore_empty=True).y(x)
    hi = Curve.max([a, b], ignore_empty=True).y(x)
    if u is None:
        same(lo, v, "min ignoring missing values")
        same(hi, v, "max ignoring missing values")
    elif v is None:
        same(lo, u, "min ignoring missing values")
        same(hi, u, "max ignoring missing values")
    else:
        same(lo, lesser(u, v), "min ignoring missing values")
        same(hi, greater(u, v), "max ignoring missing values")


def c12_min_max_of_three():
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    u = a.y(x)
    v = b.y(x)
    w = c.y(x)
    assume(u is not None)
    assume(v is not None)
    assume(w is not None)
    same(Curve.min([a, b, c]).y(x), lesser(lesser(u, v), w), "min of three")
    same(Curve.max([a, b, c]).y(x), greater(greater(u, v), w), "max of three")


def c12_domains():
    """C28: first and min/max ignoring empty operands live on the union of the
    domains, plain min and max on the intersection"""
    a = Src("a", ival("A"))
    b = Src("b", ival("B"))
    check(Curve.first([a, b]).domain == Interval.union([a.dom, b.dom]), "first: the union of the domains")
    check(Curve.min([a, b], ignore_empty=True).domain == Interval.union([a.dom, b.dom]), "min ignoring empty: the union of the domains")
    check(Curve.max([a, b], ignore_empty=True).domain == Interval.union([a.dom, b.dom]), "max ignoring empty: the union of the domains")
    check(Curve.min([a, b]).domain == Interval.intersection([a.dom, b.dom]), "min: the intersection of the domains")
    check(Curve.max([a, b]).domain == Interval.intersection([a.dom, b.dom]), "max: the intersection of the domains")


def c12_first_where_one_ends():
    """C28"""
    a = Src("a", Interval(0, 10))
    b = Src("b", Interval(5, 20))
    x = num("x")
    f = Curve.first([a, b])
    r = f.y(x)
    u = a.y(x)
    v = b.y(x)
    if x < 0 or x > 20:
        check(r is None, "first: missing outside every domain")
    elif u is not None:
        same(r, u, "first: the first curve has precedence")
    else:
        same(r, v, "first: the next curve fills the gap")


def c11_domains():
    """C28: arithmetic lives on the intersection of the domains"""
    a = Src("a", ival("A"))
    b = Src("b", ival("B"))
    e = Interval.intersection([a.dom, b.dom])
    check((a + b).domain == e, "a + b: the intersection of the domains")
    check((a - b).domain == e, "a - b: the intersection of the domains")
    check((a * b).domain == e, "a * b: the intersection of the domains")
    check((a / b).domain == e, "a / b: the intersection of the domains")
    check((a ** b).domain == e, "a ** b: the intersection of the domains")
    check((-a).domain == a.dom, "-a: the domain of a")
    check(abs(a).domain == a.dom, "abs(a): the domain of a")
    check((a + 1).domain == a.dom, "a + 1: the domain of a")


def c28_arithmetic_outside():
    a = Src("a", Interval(0, 10))
    b = Src("b", Interval(5, 20))
    x = num("x")
    assume(x < 5 or x > 10)
    check((a + b).y(x) is None, "a + b: missing outside the common domain")
    check(Curve.min(a, b).y(x) is None, "min: missing outside the common domain")


def c28_aggregate_open():
    """C12: at an end some operand does not reach"""
    f = Src("f", Interval.open(0, 4))
    g = Src("g", Interval.closed(0, 4))
    h = Src("h", Interval.closed_open(-1, 2))
    for c in [
        Curve.min([f, g]), Curve.max([f, g]), Curve.min([g, f]), Curve.max([g, f]),
        Aggregate([f, g]), Aggregate([f, g], tfm=lambda x, ys: 1), f + g, g * f,
    ]:
        check(c.domain == Interval.open(0, 4), "the domain common to all")
        check(c.y(0) is None and c.y(4) is None, "no value at an end not common to all")
        check(c.y(2) is not None or f.y(2) is None or g.y(2) is None, "a value inside")
    for c in [Curve.min([h, f, g]), Aggregate([g, h, f], tfm=lambda x, ys: 1, default=7)]:
        check(c.domain == Interval.open(0, 2), "the domain common to all")
        check(c.y(0) == c.default and c.y(2) == c.default and c.y(4) == c.default, "no value, or the default, at an end not common to all")


def c28_aggregate_steps():
    """the next (previous) position of a combination is the nearest one any
    operand offers in that direction"""
    a = Src("a")
    b = Src("b")
    x = num("x")
    s = a + b
    p = a.x_next(x)
    q = b.x_next(x)
    r = s.x_next(x)
    ps = []
    for z in [p, q]:
        if z is not None:
            if z > x:
                ps.append(z)
    if len(ps) == 0:
        check(r is None, "x_next: none when no operand steps forward")
    elif len(ps) == 1:
        same(r, ps[0], "x_next: the only forward step")
    else:
        same(r, lesser(ps[0], ps[1]), "x_next: the nearest step")


def c28_aggregate_steps_back():
    a = Src("a")
    b = Src("b")
    x = num("x")
    s = a + b
    p = a.x_previous(x)
    q = b.x_previous(x)
    r = s.x_previous(x)
    ps = []
    for z in [p, q]:
        if z is not None:
            if z < x:
                ps.append(z)
    if len(ps) == 0:
        check(r is None, "x_previous: none when no operand steps back")
    elif len(ps) == 1:
        same(r, ps[0], "x_previous: the only backward step")
    else:
        same(r, greater(ps[0], ps[1]), "x_previous: the nearest step")


def c14_aggregate_forwards_options():
    a = Src("a")
    b = Src("b")
    s = a + b
    x = num("x")
    m = pos("m")
    l = num("l")
    s.x_next(x, min_step=m, limit=l)
    s.x_previous(x, min_step=m, limit=l)
    for k in ["a", "b"]:
        n = logged(k + ".x_next")
        p = logged(k + ".x_previous")
        same(n, [(x, m, l)], "an aggregate hands min_step and limit to its operands' x_next")
        same(p, [(x, m, l)], "an aggregate hands min_step and limit to its operands' x_previous")


def c27_blend():
    """C10: a blend is the first curve before the window, the second after it
    and the weighted mix within"""
    a = Src("a", Interval(0, 100))
    b = Src("b", Interval(0, 100))
    x = num("x")
    c = a.blend(b, 20, 60)
    r = c.y(x)
    u = a.y(x)
    v = b.y(x)
    if x < 0 or x > 100:
        check(r is None, "blend: missing outside the domain")
    elif x < 20:
        same(r, u, "blend: the first curve before the window")
    elif x > 60:
        same(r, v, "blend: the second curve after the window")
    elif u is None or v is None:
        if x > 20 and x < 60:
            check(r is None, "blend: missing where an operand is missing")
    else:
        t = (x - 20) / 40
        same(r, (1 - t) * u + t * v, "blend: the weighted mix")


def c27_subset():
    """C28: a subset is the curve itself, on the given domain only"""
    a = Src("a")
    d = ival("D")
    x = num("x")
    s = a.subset(d)
    check(s.domain == d, "subset: the domain given")
    if d.contains(x):
        same(s.y(x), a.y(x), "subset: the curve's values")
    else:
        check(s.y(x) is None, "subset: missing outside")


def c27_piecewise():
    """C28"""
    from curvepy import Piecewise
    a = Src("a")
    b = Src("b")
    c = Src("c")
    x = num("x")
    p = Piecewise([a, b, c], [Interval.closed_open(0, 10), Interval.closed_open(10, 20), Interval.closed(20, 30)])
    r = p.y(x)
    check(p.domain == Interval.closed(0, 30), "piecewise: the union of the domains")
    if x < 0 or x > 30:
        check(r is None, "piecewise: missing outside the pieces")
    elif x < 10:
        same(r, a.y(x), "piecewise: first piece")
    elif x < 20:
        same(r, b.y(x), "piecewise: second piece")
    else:
        same(r, c.y(x), "piecewise: last piece")


def c12_infinite_values():
    """C10"""
    x, v = num("x"), num("v")
    for e in [False, True]:
        check(Curve.min([v, math.inf, -math.inf], ignore_empty=e).y(x) == -math.inf, "minus infinity is a value, the least")
        check(Curve.max([v, -math.inf, math.inf], ignore_empty=e).y(x) == math.inf, "infinity is a value, the greatest")
        same(Curve.min([math.inf, v], ignore_empty=e).y(x), v, "any is less than infinity")
        same(Curve.max([-math.inf, v], ignore_empty=e).y(x), v, "any is greater than minus infinity")
        check(Curve.min([math.inf, math.inf], ignore_empty=e).y(x) == math.inf, "infinity alone is a value")
        check(Curve.max([-math.inf], ignore_empty=e).y(x) == -math.inf, "minus infinity alone is a value")
    check(Curve.first([-math.inf, v]).y(x) == -math.inf, "the first may be infinite")


def c11_infinite_values():
    """C10: arithmetic with infinite values"""
    x, k = num("x"), pos("k")
    for i in [math.inf, -math.inf]:
        c = Constant(i)
        check(c.y(x) == i, "infinity is a value")
        check((-c).y(x) == -i and c.additive_inverse().y(x) == -i, "the opposite of infinity")
        check(c.abs().y(x) == math.inf, "the magnitude of infinity")
        check(c.multiplicative_inverse().y(x) == 0, "the inverse of infinity is zero")
        check((1 / c).y(x) == 0, "one by infinity is zero")
        check((c + 5).y(x) == i and (5 + c).y(x) == i and (c - 5).y(x) == i and (5 - c).y(x) == -i, "infinity and a number")
        check((c * 2).y(x) == i and (c * -2).y(x) == -i and (c / 2).y(x) == i, "a multiple of infinity")
    check(Constant(0).multiplicative_inverse().y(x) == math.inf, "the inverse of zero is infinite")


def c28_open_end():
    """C11: close to an open end"""
    p = Points([(i, num("y%d" % i)) for i in range(5)])
    q = p.subset(Interval.open(1, 3))
    for c in [p + q, q + p, Curve.max([p, q])]:
        for m in [0.25, 0.5, 0.75, 1]:
            for x in [1.25, 1.5, 2, 2.5, 2.75]:
                n = c.x_next(x, min_step=m)
                if n is not None:
                    check(n >= x + m and c.domain.contains(n), "a step forward leads to a greater position of the domain")
                n = c.x_previous(x, min_step=m)
                if n is not None:
                    check(n <= x - m and c.domain.contains(n), "a step backward leads to a smaller position of the domain")
