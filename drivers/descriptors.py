"""C21: descriptions of curves."""
from _driver_common import Src
from curvepy import Curve, Constant, Points, Line, Generic
from intervalpy import Interval
import math


def P(d):
    return Curve.parse_descriptor(d)


def c21_constant():
    v, x = num("v"), num("x")
    same(P({"$const": v}).y(x), v, "a constant")
    same(P({"$constant": v}).y(x), v, "a constant, in full")
    same(P({"$const": [v]}).y(x), v, "a constant, in a list")
    same(P({"$const": {"y": v}}).y(x), v, "a constant, by name")
    same(P({"$const": {"y": v, "domain": [0, 1]}}).domain, Interval.closed(0, 1), "a constant with a domain")
    same(P({"$const": 0}).y(x), 0, "zero")


def c21_line():
    a, b, x = num("a"), num("b"), num("x")
    f = P({"$line": {"points": [[0, a], [2, b]]}})
    same(f.y(x), a + (b - a) / 2 * x, "a line through points")
    f = P({"$line": {"const": a, "slope": b}})
    same(f.y(x), a + b * x, "a line of constant and slope")
    f = P({"$line": [a, b]})
    same(f.y(x), a + b * x, "a line by position")
    f = P({"$line": {"p1": [1, a], "slope": b}})
    same(f.y(x), a + b * (x - 1), "a line of point and slope")
    f = P({"$line": {"@args": [a], "slope": b}})
    same(f.y(x), a + b * x, "positional and named arguments together")


def c21_arithmetic():
    """C11"""
    a, b, x = num("a"), num("b"), num("x")
    same(P({"$add": [a, b]}).y(x), a + b, "a sum")
    same(P({"$add": [a, b, a]}).y(x), a + b + a, "a sum of three")
    same(P({"$add": [a]}).y(x), a, "a sum of one")
    same(P({"$subtract": [a, b]}).y(x), a - b, "a difference, in order")
    same(P({"$subtract": [a, b, 5]}).y(x), a - b - 5, "a difference of three")
    same(P({"$multiply": [a, b]}).y(x), a * b, "a product")
    if b != 0:
        same(P({"$divide": [a, b]}).y(x), a / b, "a quotient, in order")


def c21_arithmetic_args():
    a, b, x = num("a"), num("b"), num("x")
    same(P({"$add": {"@args": [a, b]}}).y(x), a + b, "a sum of named arguments")
    same(P({"$subtract": {"@args": [a, b]}}).y(x), a - b, "a difference of named arguments")


def c21_extremes():
    """C12"""
    a, b, x = num("a"), num("b"), num("x")
    same(P({"$max": [a, b]}).y(x), a if a > b else b, "the maximum")
    same(P({"$min": [a, b]}).y(x), a if a < b else b, "the minimum")
    same(P({"$first": [a, b]}).y(x), a, "the first")


def c21_powers():
    x = num("x")
    same(P({"$raised": {"@args": [4], "base": 2}}).y(x), 16, "a base raised")
    same(P({"$pow": [3, 2]}).y(x), 9, "a power")
    same(P({"$log2": 16}).y(x), 4, "a logarithm to the base 2")
    same(P({"$log10": 100}).y(x), 2, "a logarithm to the base 10")
    same(P({"$log": {"@args": [100], "base": 10}}).y(x), 2, "a logarithm to a base given")


def c21_nested():
    a, b, c, x = num("a"), num("b"), num("c"), num("x")
    f = P({"$add": [{"$multiply": [a, b]}, c]})
    same(f.y(x), a * b + c, "a function of a function")
    f = P({"$subtract": [c, {"$multiply": [a, {"$add": [b, 1]}]}]})
    same(f.y(x), c - a * (b + 1), "a function of a function of a function")
    f = P({"$add": [{"$line": {"const": a, "slope": b}}, {"$const": c}]})
    same(f.y(x), a + b * x + c, "a function of two functions")


def c21_chain():
    a, b, c, x = num("a"), num("b"), num("c"), num("x")
    same(P({"$const": a, "$add": [b]}).y(x), a + b, "chained to a sum")
    same(P({"$const": a, "$subtract": [b]}).y(x), a - b, "chained as the first argument")
    same(P({"$const": a, "$subtract": b}).y(x), a - b, "chained to a bare argument")
    same(P({"$const": a, "$subtract": b, "$multiply": c}).y(x), (a - b) * c, "chained twice")
    same(P({"$const": a, "$abs": []}).y(x), a if a >= 0 else -a, "chained to a method")
    same(P({"$const": a, "$max": [b]}).y(x), a if a > b else b, "chained to a function of many")
    same(P({"$line": {"const": a, "slope": b}, "$offset": [c]}).y(x), a + b * (x - c), "chained to a displacement")
    same(P({"$line": {"const": a, "slope": b}, "$offset": {"x": c}}).y(x), a + b * (x - c), "chained to a displacement by name")


def c21_chain_of_methods():
    a, b, x = num("a"), num("b"), num("x")
    f = P({"$line": {"const": a, "slope": b}, "$additive_inverse": []})
    same(f.y(x), -(a + b * x), "chained to an inverse")
    f = P({"$const": 16, "$log": {"base": 2}})
    same(f.y(x), 4, "chained to a logarithm")
    f = P({"$const": 16, "$log2": []})
    same(f.y(x), 4, "chained to a logarithm by name")
    f = P({"$const": 3, "$raised": {"base": 2}})
    same(f.y(x), 8, "chained to a base raised")


def c21_method_of_argument():
    a, b, c, x = num("a"), num("b"), num("c"), num("x")
    f = P({"$offset": [{"$line": {"const": a, "slope": b}}, c]})
    same(f.y(x), a + b * (x - c), "a method takes its curve as first argument")
    f = P({"$abs": [a]})
    same(f.y(x), a if a >= 0 else -a, "a method of a number")


def c21_points():
    u, v = num("u"), num("v")
    f = Curve.parse([[0, u], [1, v]])
    same(f.y(0), u, "a list of points is a curve of points")
    same(f.y(1), v, "with all of them")
    same(f.y(0.5), (u + v) / 2, "interpolated")
    check(Curve.parse([]).domain.is_empty, "no points are an empty curve")
    f = Curve.parse([(0, u), (1, v)])
    same(f.y(1), v, "a list of pairs is a curve of points")


def c21_direct():
    """C11"""
    x, v = num("x"), num("v")
    s = Src("s")
    f = fn("f", 1)
    check(Curve.parse(s) is s, "a curve is itself")
    check(Curve.parse(None) is None, "nothing is nothing")
    same(Curve.parse(f).y(x), f(x), "a function is the curve of its values")
    same(Curve.parse(v).y(x), v, "a number is a constant")
    same(Curve.parse(0).y(x), 0, "zero is a constant")
    same(Curve.parse({"$add": [v, 1]}).y(x), v + 1, "a description is what it describes")
    l = Curve.parse_many([s, v])
    check(l[0] is s, "many are parsed in order")
    same(l[1].y(x), v, "many are parsed each")
    l = Curve.parse_many(s, v)
    check(l[0] is s and len(l) == 2, "many are parsed from arguments")


def c21_rubbish():
    for d in ["text", [1, 2], {"$nothing_like_this": 1}]:
        failed = False
        try:
            Curve.parse(d)
        except Exception:
            failed = True
        check(failed, "what describes nothing is refused")
    failed = False
    try:
        P({"$const": 1, "other": 2})
    except Exception:
        failed = True
    check(failed, "a stray key is refused")
    failed = False
    try:
        P("text")
    except Exception:
        failed = True
    check(failed, "no description is refused")


def c21_unchanged():
    """C19: building a curve does not change the description"""
    d = {"$subtract": {"@args": [3, {"$line": {"points": [[0, 1], [1, 2]]}}]}}
    P(d)
    check(d == {"$subtract": {"@args": [3, {"$line": {"points": [[0, 1], [1, 2]]}}]}}, "the description is unchanged")
    e = {"$const": 1, "$add": [2], "$multiply": [[3, 4]]}
    P({"$const": 1, "$add": [2]})
    check(e == {"$const": 1, "$add": [2], "$multiply": [[3, 4]]}, "the description of a chain is unchanged")
    l = {"@log2": {"$add": [4, 8]}}
    P(l)
    check(l == {"@log2": {"$add": [4, 8]}}, "the description of a logarithm is unchanged")


def c21_again():
    """the same description describes the same curve again"""
    x = num("x")
    d = {"$const": 1, "$add": [2]}
    f = P(d)
    g = P(d)
    same(f.y(x), 3, "the first")
    same(g.y(x), 3, "the second")
    l = {"@log2": {"$add": [4, 8]}}
    same(P(l).y(x), 32, "inside a logarithm")
    same(P(l).y(x), 32, "inside a logarithm, again")
    same(P({"$add": [4, 8]}).y(x), 12, "outside a logarithm afterwards")


def c21_after_failure():
    """a refused description leaves nothing behind"""
    x = num("x")
    try:
        P({"@log2": {"$nothing_like_this": [4]}})
    except Exception:
        pass
    same(P({"$add": [4, 8]}).y(x), 12, "a refused description leaves nothing behind")


def c21_logarithmic():
    x = num("x")
    same(P({"@log2": {"$add": [16, 16]}}).y(x), 256, "literals to their logarithms, the result to a power")
    same(P({"@log10": {"$add": [10, 100]}}).y(x), 1000, "to the base 10")
    same(P({"@log2": {"$line": {"points": [[2, 16], [4, 16]]}}}).y(x), 16, "a line")
    same(Curve.parse_descriptor({"@log2": 8}, fragment=True), 8, "a literal comes back")
    same(P({"@log2": {"$const": 8}}).y(x), 8, "a constant comes back")
    same(P({"@log2": {"$subtract": [8, 2]}}).y(x), 4, "a quotient by logarithms")


def c21_logarithmic_arguments():
    x = num("x")
    same(P({"@log2": {"$add": {"@args": [16, 16]}}}).y(x), 256, "positional arguments by name to their logarithms, once")
    same(P({"@log2": {"$subtract": {"@args": [32, {"$const": 4}]}}}).y(x), 8, "and those of functions in them")
    same(P({"@log2": {"$add": [{"$multiply": {"@args": [4, 8]}}, 2]}}).y(x), 128, "at any depth")
    same(P({"$add": {"@args": [{"@log2": {"$add": {"@args": [4, 8]}}}, 5]}}).y(x), 37, "inside such arguments")
    same(P({"@log10": {"$add": {"@args": [10, 100]}}}).y(x), 1000, "to the base 10")
    same(P({"@log2": {"$line": {"@args": [16], "slope": 0}}}).y(x), 16, "beside named ones")
    d = {"@log2": {"$add": {"@args": [16, 16]}}}
    same(P(d).y(x), P(d).y(x), "each time")
    check(d == {"@log2": {"$add": {"@args": [16, 16]}}}, "the description is unchanged")


def c21_logarithmic_base():
    x = num("x")
    same(P({"@log3": {"$const": 9}}).y(x), 9, "a constant comes back, for any base")
    same(P({"@log3": {"$add": [9, 3]}}).y(x), 27, "a product by logarithms, for any base")
    same(P({"@log4": {"$add": {"@args": [16, 4]}}}).y(x), 64, "for arguments by name as well")


def c21_dated_arguments():
    a = num("a")
    d = Curve.parse_descriptor({"@date": "2020-05-08 11:01+0000"}, fragment=True)
    f = P({"$line": {"slope": a, "@args": [{"@date": "2020-05-08 11:01+0000"}]}})
    same(f.y(0), d, "a date among arguments by name")
    g = P({"@date": {"$add": {"@args": ["2020-05-08 11:01+0000", "1970-01-01 00:00:02+0000"]}}})
    e = Curve.parse_descriptor({"@date": "1970-01-01 00:00:02+0000"}, fragment=True)
    same(g.y(1), d + e, "dates among arguments by name, all of them")


def c21_logarithmic_then():
    x = num("x")
    same(P({"@log2": {"$const": 16}, "$max": 10}).y(x), 16, "chained after a logarithm")
    same(P({"@log2": {"$const": 16}, "$max": [10]}).y(x), 16, "chained after a logarithm, in a list")
    same(P({"@log2": {"$const": 16}, "$add": [4]}).y(x), 20, "what follows is not logarithmic")
    same(P({"$add": [{"@log2": {"$const": 16}}, 4]}).y(x), 20, "what is beside is not logarithmic")


def c21_dates():
    a, b = num("a"), num("b")
    d = Curve.parse_descriptor({"@date": "2020-05-08 11:01+0000"}, fragment=True)
    e = Curve.parse_descriptor({"@date": "2020-05-09 11:01+0000"}, fragment=True)
    f = P({"$line": {"points": [[{"@date": "2020-05-08 11:01+0000"}, a], [{"@date": "2020-05-09 11:01+0000"}, b]]}})
    if d < e:
        same(f.y(d), a, "a date is its seconds, beside it a number is itself")
        same(f.y(e), b, "each date its own")
    g = P({"@log2": {"$line": {"points": [[{"@date": "2020-05-08 11:01+0000"}, 2], [{"@date": "2020-05-09 11:01+0000"}, 8]]}}})
    if d < e:
        same(g.y(d), 2, "a date in a logarithm is its seconds")


def c21_fragments():
    a = num("a")
    same(Curve.parse_descriptor([a, {"k": [a, 1]}], fragment=True), [a, {"k": [a, 1]}], "values without functions are themselves")
    same(Curve.parse_descriptor("text", fragment=True), "text", "text is itself")
    same(Curve.parse_descriptor(a, fragment=True), a, "a number is itself")
    f = Curve.parse_descriptor({"price": {"$const": a}, "n": 1})
    same(f["price"].y(0), a, "a function under a key")
    same(f["n"], 1, "a value under a key")
