"""C22: quotes and their columns (analysed, never executed)."""
from _driver_common import Src, watch
from curvepy import Quotes, Curve, Points
from intervalpy import Interval
import math

FIELDS = ["open", "high", "low", "close", "volume"]


def quote(i, tag="q"):
    return (i, tuple([num("%s%d.%s" % (tag, i, f)) for f in FIELDS]))


def quotes(n, **kw):
    return Quotes(1, quote_points=[quote(i) for i in range(n)], **kw)


def column(q, f):
    return {"open": q.open, "high": q.high, "low": q.low, "close": q.close, "volume": q.volume}[f]


def c22_columns():
    """C10"""
    q = quotes(3)
    x = num("x")
    for i, f in enumerate(FIELDS):
        c = column(q, f)
        v = c.y(x)
        if x < 0 or x > 2:
            check(v is None, "no field outside the quotes")
        elif x < 1:
            same(v, num("q0." + f), "the field of the quote in force")
        elif x < 2:
            same(v, num("q1." + f), "the field of the quote in force")
        else:
            same(v, num("q2." + f), "the field of the quote in force")


def c22_mid():
    q = quotes(2)
    x = num("x")
    v = q.hl2.y(x)
    if x < 0 or x > 1:
        check(v is None, "no mid outside the quotes")
    elif x < 1:
        same(v, (num("q0.high") + num("q0.low")) / 2, "the middle of high and low")
    else:
        same(v, (num("q1.high") + num("q1.low")) / 2, "the middle of high and low")


def c22_columns_again():
    """C20"""
    q = quotes(2)
    for f in FIELDS:
        check(column(q, f) is column(q, f), "a column is made once")
    check(q.hl2 is q.hl2, "the mid is made once")
    check(q.open is not q.close and q.high is not q.low and q.close is not q.volume and q.hl2 is not q.high, "columns are different curves")


def c22_columns_steps():
    q = quotes(3)
    x = num("x")
    for i in [0, 1, 2]:
        assume(x == i or x <= i - 0.1 or x >= i + 0.1)
    for f in FIELDS:
        c = column(q, f)
        same(c.x_next(x), q.x_next(x), "the next position of a column is that of the quotes")
        same(c.x_previous(x), q.x_previous(x), "the previous position of a column is that of the quotes")
        check(c.domain == q.domain, "the domain of a column is that of the quotes")


def c22_steps():
    q = quotes(3)
    x = num("x")
    for i in [0, 1, 2]:
        assume(x == i or x <= i - 0.1 or x >= i + 0.1)
    n = q.x_next(x)
    p = q.x_previous(x)
    if x < 0:
        same(n, 0, "the next quote")
    elif x < 1:
        same(n, 1, "the next quote")
    elif x < 2:
        same(n, 2, "the next quote")
    else:
        check(n is None, "no quote after the last")
    if x > 2:
        same(p, 2, "the previous quote")
    elif x > 1:
        same(p, 1, "the previous quote")
    elif x > 0:
        same(p, 0, "the previous quote")
    else:
        check(p is None, "no quote before the first")


def c22_steps_min():
    q = quotes(4)
    same(q.x_next(0, min_step=1.5), 2, "the next quote at least the least step away")
    same(q.x_previous(3, min_step=1.5), 1, "the previous quote at least the least step away")


def c22_columns_of_changed():
    """C05 C08"""
    q = quotes(2)
    x = num("x")
    for f in FIELDS:
        column(q, f).y(x)
    q.append(quote(2))
    for f in FIELDS:
        same(column(q, f).y(2), num("q2." + f), "the field of an appended quote")
        check(column(q, f).domain == Interval.closed(0, 2), "the domain of a column follows")
    q.set([quote(1, "n"), quote(2, "n")])
    for f in FIELDS:
        same(column(q, f).y(1), num("n1." + f), "the field of a quote set")
        check(column(q, f).y(0) is None, "a quote no longer there has no field")


def c22_columns_told():
    """C05: columns tell of a change of the quotes"""
    q = quotes(2)
    for f in FIELDS:
        watch(column(q, f), f)
    watch(q.hl2, "hl2")
    q.append(quote(2))
    for f in FIELDS + ["hl2"]:
        check(len(logged(f + ".begin")) == 1 and len(logged(f + ".end")) == 1, "a column tells of a change once")
        d = logged(f + ".end")[0][0]
        check(d.contains(2), "a column tells where it changed")


def encoder(raw):
    log("encoded", raw[0])
    return (raw[0], (raw[1], raw[2], raw[3], raw[4], raw[5]))


def raw(i, tag="q"):
    return [i] + [num("%s%d.%s" % (tag, i, f)) for f in FIELDS]


def once(q, xs, what, tag="q"):
    e = logged("encoded")
    check(len(e) == len(xs), what + ": every quote is encoded exactly once")
    for i, x in enumerate(xs):
        if i < len(e):
            same(e[i][0], x, what + ": quotes are encoded in order")
    for x in xs:
        v = q.y(x)
        check(v is not None, what + ": the quotes are there")
        if v is not None:
            for i, f in enumerate(FIELDS):
                same(v[i], num("%s%d.%s" % (tag, x, f)), what + ": the quotes are the encoded ones")


def c22_encode_constructed():
    q = Quotes(1, quote_points=[raw(0), raw(1), raw(2)], encoder=encoder)
    once(q, [0, 1, 2], "construction")


def c22_encode_any():
    """whatever the quotes look like before they are encoded"""
    def encode(r):
        log("encoded", r)
        i = r if isinstance(r, int) else r["t"] if isinstance(r, dict) else r[0]
        return (i, (1 + i, 5, 0, 2 + i, 7))
    q = Quotes(1, quote_points=[(0, (9, 9, 9, 9, 9)), (1, "b"), [2, 8]], encoder=encode)
    check(len(logged("encoded")) == 3, "every quote is encoded")
    q.append((3, (9, 9, 9, 9, 9)))
    q.append_list([{"t": 4}, 5])
    check(len(logged("encoded")) == 6, "every quote is encoded once")
    for i in range(6):
        check(q.y(i) == (1 + i, 5, 0, 2 + i, 7), "the quotes are the encoded ones")
        check(q.open.y(i) == 1 + i and q.close.y(i) == 2 + i, "the columns read the encoded quotes")
    q.set([(7, (9, 9, 9, 9, 9))])
    check(q.y(7) == (8, 5, 0, 9, 7), "quotes set are encoded")


def c22_encode_set():
    q = Quotes(1, encoder=encoder)
    q.set([raw(0), raw(1)])
    once(q, [0, 1], "set")


def c22_encode_set_again():
    q = Quotes(1, quote_points=[raw(0), raw(1)], encoder=encoder)
    forget_log()
    q.set([raw(1, "n"), raw(2, "n")])
    once(q, [1, 2], "set again", "n")


def c22_encode_append():
    q = Quotes(1, quote_points=[raw(0), raw(1)], encoder=encoder)
    forget_log()
    q.append(raw(2))
    once(q, [2], "append")


def c22_encode_append_first():
    q = Quotes(1, encoder=encoder)
    q.append(raw(0))
    once(q, [0], "append to none")
    forget_log()
    q.append(raw(1))
    once(q, [1], "append to one")


def c22_encode_append_list():
    q = Quotes(1, quote_points=[raw(0)], encoder=encoder)
    forget_log()
    q.append_list([raw(1), raw(2)])
    once(q, [1, 2], "append_list")


def c22_encode_append_list_first():
    q = Quotes(1, encoder=encoder)
    q.append_list([raw(0), raw(1)])
    once(q, [0, 1], "append_list to none")


def c22_encode_read():
    """C20: reading encodes nothing"""
    q = Quotes(1, quote_points=[raw(0), raw(1)], encoder=encoder)
    forget_log()
    q.y(0)
    q.sample()
    q.sample_points()
    q.get_range()
    q.first_quote()
    q.last_quote()
    q.close.y(1)
    check(len(logged("encoded")) == 0, "reading encodes nothing")


def c22_ends():
    q = quotes(3)
    same(q.first_quote()[3], num("q0.close"), "the first quote")
    same(q.last_quote()[3], num("q2.close"), "the last quote")
    e = Quotes(1)
    check(e.first_quote() is None and e.last_quote() is None, "no quotes, no first nor last")
    check(e.domain.is_empty, "no quotes, no domain")


def c22_quote_domain():
    q = quotes(3)
    d = q.get_quote_domain()
    check(d.start == 0 and d.end == 3 and not d.start_open and d.end_open, "the quotes last to the end of the last")
    check(Quotes(1).get_quote_domain().is_empty, "no quotes last nowhere")


def within(lo, hi, so, eo):
    """the quotes of 0, 1, 2 in force somewhere in the interval"""
    out = []
    for i in [0, 1, 2]:
        starts_before_end = i < hi or (i == hi and not eo)
        ends_after_start = i + 1 > lo
        if starts_before_end and ends_after_start:
            out.append(i)
    return out


def c22_samples():
    q = quotes(3)
    a, b = num("a"), num("b")
    assume(a < b)
    got = q.sample_points(Interval.closed(a, b))
    want = within(a, b, False, False)
    check(len(got) == len(want), "the quotes of the interval")
    if len(got) == len(want):
        for g, i in zip(got, want):
            same(g[0], i, "at their positions, in order")
            same(g[1][3], num("q%d.close" % i), "the quotes themselves")


def c22_samples_open():
    q = quotes(3)
    a, b = num("a"), num("b")
    assume(a < b)
    got = q.sample(Interval.open(a, b))
    want = within(a, b, True, True)
    check(len(got) == len(want), "the quotes of an open interval")
    if len(got) == len(want):
        for g, i in zip(got, want):
            same(g[3], num("q%d.close" % i), "the quotes themselves, in order")


def c22_samples_all():
    q = quotes(3)
    got = q.sample()
    check(len(got) == 3, "all quotes")
    for i, g in enumerate(got):
        for k, f in enumerate(FIELDS):
            same(g[k], num("q%d.%s" % (i, f)), "the quotes themselves, in order")
    got = q.sample_points()
    check(len(got) == 3 and got[0][0] == 0 and got[1][0] == 1 and got[2][0] == 2, "all quotes with their positions")
    check(len(q.sample(Interval.empty())) == 0, "no quotes in an empty interval")
    check(len(Quotes(1).sample()) == 0, "no quotes, no samples")


def c22_samples_step():
    q = quotes(5)
    got = q.sample_points(Interval.closed(0, 4), step=2)
    check([p[0] for p in got] == [0, 2, 4], "a fixed step")
    for p in got:
        same(p[1][3], num("q%d.close" % p[0]), "the quotes of a fixed step")


def c22_range():
    q = quotes(2)
    r = q.get_range()
    l0, l1 = num("q0.low"), num("q1.low")
    h0, h1 = num("q0.high"), num("q1.high")
    lo = l0 if l0 < l1 else l1
    hi = h0 if h0 > h1 else h1
    assume(lo <= hi)
    check(r.start == lo and r.end == hi, "the range is from the lowest low to the highest high")
    check(not r.start_open and not r.end_open or lo == hi, "with both")


def c22_range_interval():
    q = quotes(3)
    l1, h1 = num("q1.low"), num("q1.high")
    assume(l1 <= h1)
    r = q.get_range(Interval(1, 2, start_open=False, end_open=True))
    check(r.start == l1 and r.end == h1, "the range of an interval is that of its quotes")
    a = num("a")
    assume(a > 1)
    assume(a < 2)
    r = q.get_range(Interval.point(a))
    check(r.start == l1 and r.end == h1, "the range of a position is that of its quote")


def c22_range_of_three():
    q = quotes(3)
    l0, l1, l2 = num("q0.low"), num("q1.low"), num("q2.low")
    assume(l1 < l0)
    assume(l0 < l2)
    h0, h1, h2 = num("q0.high"), num("q1.high"), num("q2.high")
    assume(h1 < h0)
    assume(h0 < h2)
    assume(l1 < h2)
    r = q.get_range()
    check(r.start == l1 and r.end == h2, "the range of three")


def c22_range_none():
    check(Quotes(1).get_range().is_empty, "no quotes, no range")
    q = quotes(2)
    check(q.get_range(Interval.closed(10, 20)).is_empty, "no quotes in the interval, no range")


def c22_range_zero():
    """C10: a price of zero is a price"""
    q = Quotes(1, quote_points=[(0, (1, 2, 0, 1, 5)), (1, (1, 3, 1, 1, 5))])
    r = q.get_range()
    check(r.start == 0 and r.end == 3, "a low of zero is the lowest")
    q = Quotes(1, quote_points=[(0, (-1, 0, -3, -1, 5)), (1, (-1, -1, -2, -1, 5))])
    r = q.get_range()
    check(r.start == -3 and r.end == 0, "a high of zero is the highest")


def c22_trailing():
    """C13 C14"""
    q = quotes(4)
    h = q.trailing_high(2)
    l = q.trailing_low(2)
    h1, h2 = num("q1.high"), num("q2.high")
    l1, l2 = num("q1.low"), num("q2.low")
    same(h.y(2), h1 if h1 > h2 else h2, "the highest high of the last quotes")
    same(l.y(2), l1 if l1 < l2 else l2, "the lowest low of the last quotes")
    x = num("x")
    assume(x > 2)
    assume(x < 3)
    same(h.y(x), h1 if h1 > h2 else h2, "which holds until the next quote")
    same(l.y(x), l1 if l1 < l2 else l2, "which holds until the next quote")


def c22_trailing_period():
    """C13 C14"""
    q = quotes(4)
    h = q.trailing_high(2, is_period=True)
    l = q.trailing_low(2, is_period=True)
    k = q.high.trailing_max(2, is_period=True, interpolation=-1, uniform=True)
    m = q.low.trailing_min(2, is_period=True, interpolation=-1, uniform=True)
    same(h.y(3), k.y(3), "the highest high of a period")
    same(l.y(3), m.y(3), "the lowest low of a period")


def average(q, i, n):
    """the average of the n mids up to i, along the lines between them"""
    t = 0
    for k in range(i - n + 1, i):
        t += (mid(k) + mid(k + 1)) / 2
    return t / (n - 1)


def mid(i):
    return (num("q%d.high" % i) + num("q%d.low" % i)) / 2


def c22_awesome():
    """C13"""
    q = quotes(35)
    f = q.ao()
    same(f.y(34), average(q, 34, 5) - average(q, 34, 34), "the difference of the averages of 5 and 34")
    check(f.y(32) is None, "not before 34 quotes")
    same(f.y(33), average(q, 33, 5) - average(q, 33, 34), "from the 34th quote")


DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def c22_monthly():
    """C13 C14: months differ in length"""
    x = 0
    qs = []
    for i in range(35):
        qs.append((x, (1, 3 + i, 1 + i, 2, 5)))
        x += DAYS[i % 12] * 24 * 3600
    q = Quotes("1mo", quote_points=qs)
    same(q.trailing_high(2).y(qs[3][0]), 6, "the highest high of the last quotes")
    same(q.trailing_low(2).y(qs[3][0]), 3, "the lowest low of the last quotes")
    f = q.ao()
    check(f.y(qs[32][0]) is None, "not before 34 quotes")
    check(f.y(qs[34][0]) is not None, "after the 34th quote")


def c22_alligator():
    """C13"""
    q = quotes(14)
    jaw, teeth, lips = q.alligator()
    same(jaw.y(13 + 8), average(q, 13, 13), "the jaw: 13 averaged, displaced by 8")
    same(teeth.y(13 + 5), average(q, 13, 8), "the teeth: 8 averaged, displaced by 5")
    same(lips.y(13 + 3), average(q, 13, 5), "the lips: 5 averaged, displaced by 3")
    same(lips.y(4 + 3), average(q, 4, 5), "the lips from the fifth quote")
    check(lips.y(3 + 3) is None, "and not before")


def sampled(q, d):
    return [p[0] for p in q.sample_points(d)]


def c22_samples_of_intervals():
    """the quotes in force somewhere in the interval"""
    q = quotes(4)
    check(sampled(q, Interval.closed(1, 2)) == [1, 2], "from quote to quote")
    check(sampled(q, Interval.open(1, 2)) == [1], "between two quotes")
    check(sampled(q, Interval(1, 2, start_open=True, end_open=False)) == [1, 2], "after one to the next")
    check(sampled(q, Interval(1, 2, start_open=False, end_open=True)) == [1], "from one to before the next")
    check(sampled(q, Interval.closed(0.5, 1.5)) == [0, 1], "from within one to within the next")
    check(sampled(q, Interval.closed(1.2, 1.8)) == [1], "within one")
    check(sampled(q, Interval.point(2)) == [2], "one position")
    check(sampled(q, Interval.point(2.5)) == [2], "one position within a quote")
    check(sampled(q, Interval.gte(2)) == [2, 3], "from a quote on")
    check(sampled(q, Interval.gt(2)) == [2, 3], "after the start of a quote on")
    check(sampled(q, Interval.lte(1)) == [0, 1], "up to a quote")
    check(sampled(q, Interval.lt(1)) == [0], "before a quote")
    check(sampled(q, Interval.closed(-5, -1)) == [], "before all quotes")
    check(sampled(q, Interval.closed(7, 9)) == [], "after all quotes")
    check(sampled(q, Interval.infinite()) == [0, 1, 2, 3], "everywhere")
