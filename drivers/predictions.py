"""C35: what a trend line makes of the points it has seen."""
from curvepy.trend import TrendLine
from curvepy.const import GOLD, GOLD_2
from intervalpy import Interval


def straight(upper, n=3, tol=0, rel=100):
    return TrendLine(1, is_upper_trend=upper, min_points=n, min_point_distance=0, search_length_rel=rel, search_length_int_rel=2, y_tol_abs=tol)


def feed(l, ps):
    seen = []
    for p in ps:
        seen.append(p)
        l.did_append_point(p, seen)
    return l


def inner(upper, d):
    return -d if upper else d


class Run:
    """points on, inside and outside of the line y0 + m x"""

    def __init__(self, upper):
        self.upper = upper
        self.y0 = num("y0")
        self.m = num("m")
        self.ps = []

    def y(self, x):
        return self.y0 + self.m * x

    def on(self, *xs):
        for x in xs:
            self.ps.append((x, self.y(x)))

    def inside(self, x, d):
        self.ps.append((x, self.y(x) + inner(self.upper, d)))
        return self.ps[-1]

    def outside(self, x, d):
        self.ps.append((x, self.y(x) - inner(self.upper, d)))
        return self.ps[-1]

    def line(self, n=3):
        return feed(straight(self.upper, n), self.ps)

    def point(self, p, x, what):
        same(p[0], x, what)
        same(p[1], self.y(x), what)


def xs(ps):
    return [p[0] for p in ps]


def touching(upper):
    r = Run(upper)
    r.on(0)
    a = r.inside(1, pos("a"))
    r.on(2)
    b = r.inside(3, pos("b"))
    r.on(4)
    c = r.inside(5, pos("c"))
    l = r.line()
    check(l.is_valid, "three touches make a line")
    check(xs(l.tangent_points) == [0, 2, 4], "every stretch on the line is a touch")
    check(list(l.extremas) == [a, b, c], "every excursion has its extreme")
    check(len(l.intersections) == 0, "no crossing where the line is only touched")
    d = r.inside(6, pos("d"))
    feed2(l, r.ps, 1)
    check(xs(l.tangent_points) == [0, 2, 4], "nothing is touched twice")
    check(len(l.extremas) == 3, "one extreme per excursion")
    return r, l


def feed2(l, ps, n):
    """the last n of the points, seen after the others"""
    for k in range(len(ps) - n, len(ps)):
        l.did_append_point(ps[k], ps[:k + 1])
    return l


def c35_touching_upper():
    touching(True)


def c35_touching_lower():
    touching(False)


def extremes(upper):
    """the extreme of an excursion is the highest (lowest) of its points, whatever the slope of the line"""
    l = straight(upper)
    s = inner(upper, 1)
    y = num("y")
    m = num("m")
    ps = [(0, y), (1, y + m), (2, y + 2 * m)]
    hs = [pos("a"), pos("b"), pos("c")]
    for i, h in enumerate(hs):
        ps.append((3 + i, y + m * (3 + i) + s * h))
    feed(l, ps)
    check(len(l.extremas) == 1, "one extreme per excursion")
    e = l.extremas[0]
    for p in ps[3:]:
        check((p[1] - e[1]) * s <= 0, "an extreme is the highest (lowest) of its excursion")
    check(e in ps[3:], "an extreme is a point of the source")


def c35_extremes_upper():
    extremes(True)


def c35_extremes_lower():
    extremes(False)


def crossing(upper):
    r = Run(upper)
    r.on(0, 1, 2)
    a, b = pos("a"), pos("b")
    r.inside(4, a)
    e = r.outside(6, b)
    l = r.line()
    check(len(l.intersections) == 1, "a change of sides is a crossing")
    if len(l.intersections) == 1:
        r.point(l.intersections[0], 4 + 2 * a / (a + b), "a crossing lies on the line, between the points on either side")
    check(len(l.extremas) == 2 and l.extremas[1] == e, "an extreme on either side")
    f = r.outside(7, b * 2)
    feed2(l, r.ps, 1)
    check(len(l.intersections) == 1, "a crossing is crossed once")
    check(len(l.extremas) == 2, "one extreme per excursion")
    c = pos("c")
    r.inside(9, c)
    feed2(l, r.ps, 1)
    check(len(l.intersections) == 2, "a change of sides is a crossing")
    if len(l.intersections) == 2:
        r.point(l.intersections[1], 7 + 2 * 2 * b / (2 * b + c), "a crossing lies on the line, between the points on either side")
    check(len(l.tangent_points) == 1, "nothing is touched by crossing")


def c35_crossing_upper():
    crossing(True)


def c35_crossing_lower():
    crossing(False)


def touched_and_crossed(upper):
    """a touch between the sides hides no crossing"""
    r = Run(upper)
    r.on(0)
    r.inside(1, 1)
    r.on(2)
    r.inside(3, 1)
    r.on(4)
    r.outside(5, pos("b"))
    l = r.line()
    check(len(l.intersections) == 1, "a change of sides is a crossing")
    if len(l.intersections) == 1:
        x = l.intersections[0][0]
        check(3 <= x and x <= 5, "a crossing lies between the points on either side")
    check(len(l.extremas) == 3, "an extreme per excursion")
    check(xs(l.tangent_points) == [0, 2, 4], "every stretch on the line is a touch")


def c35_touched_and_crossed_upper():
    touched_and_crossed(True)


def c35_touched_and_crossed_lower():
    touched_and_crossed(False)


def c35_touch_closest():
    """a touch is the closest of its stretch, and stays the only one"""
    l = straight(True, 3, 1)
    y = num("y")
    ps = [(0, y), (1, y - 5), (2, y), (3, y - 5), (4, y), (5, y - 5)]
    feed(l, ps)
    a, b = 0.5, 0.25
    ps += [(6, y + a), (7, y - b), (8, y - 5), (9, y - 6)]
    feed2(l, ps, 4)
    check(l.is_valid, "within its tolerance, a line goes on")
    t = l.tangent_points
    check(len(t) == 4, "every stretch on the line is a touch, once")
    check(len(l.extremas) == 4, "one extreme per excursion")
    if len(t) == 4:
        p = t[3]
        check(p in ps[6:8], "a touch is a point of the source")
        for q in ps[6:8]:
            d, e = p[1] - l.y(p[0]), q[1] - l.y(q[0])
            check(d * d <= e * e, "a touch is the closest of its stretch")


def c35_straight():
    """three points in a row are one touch"""
    r = Run(True)
    r.on(0, 1, 2)
    l = r.line()
    check(len(l.tangent_points) == 1, "every stretch on the line is a touch, once")
    r.inside(3, 1)
    r.inside(4, 1)
    feed2(l, r.ps, 2)
    check(len(l.tangent_points) == 1, "every stretch on the line is a touch, once")
    check(len(l.extremas) == 1, "one extreme per excursion")


# ------------------------------------------------------------- the prediction
def four(upper):
    """a line touched three times"""
    r = Run(upper)
    r.on(0)
    r.inside(1, 1)
    r.on(2)
    r.inside(3, 1)
    r.on(4)
    r.inside(5, 1)
    l = r.line()
    return r, l


def add(r, l):
    l.did_append_point(r.ps[-1], list(r.ps))


def broken(upper, d=1, e=1):
    """a line touched three times, then broken through half-way from 5 to 6"""
    r, l = four(upper)
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE and not l.prediction_failed, "nothing is predicted of a line not broken through")
    p = r.outside(6, e)
    add(r, l)
    return r, l, p


def target(r, l, i, p, what):
    """the target: beyond the crossing i by the golden ratio squared of the extreme p"""
    s = i[1] + (p[1] - i[1]) * GOLD_2
    same(l.prediction_y, s, what + ": what is predicted")
    same(l.prediction_x_min, p[0], what + ": from the extreme on")
    same(l.prediction_x_max, p[0] + p[0] * GOLD, what + ": until")
    same(l.prediction_extrema, p, what + ": the extreme")
    e = l.prediction_line
    same(e[0][0], p[0], what)
    same(e[0][1], s, what)
    same(e[1][0], l.prediction_x_max, what)
    same(e[1][1], s, what)
    e = l.prediction_trend_line
    r.point(e[0], 0, what)
    r.point(e[1], l.prediction_x_max, what)
    e = l.prediction_confirmation_line
    r.point(e[0], 0, what)
    same(e[1], p, what)
    check(l.prediction_valid == (s > 0), what + ": only a positive value is predicted")


def intersected(upper):
    r, l, p = broken(upper)
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_INTERSECTED, "a line broken through")
    check(not l.prediction_failed and not l.prediction_succeeded, "nothing has come of it yet")
    r.point(l.prediction_intersection, 5.5, "where it was broken through")
    same(l.prediction_retest_x_max, 5.5 + 5.5 / GOLD, "how long to wait for the retest")
    r.point(l.prediction_origin, 0, "from the start of the line")
    target(r, l, (5.5, r.y(5.5)), p, "broken through")
    return r, l


def c35_intersected_upper():
    intersected(True)


def c35_intersected_lower():
    intersected(False)


def too_early(upper):
    """a line broken through before it was touched often enough"""
    r = Run(upper)
    r.on(0, 1, 2)
    r.inside(3, 1)
    r.inside(3.5, 1)
    r.inside(4, 1)
    r.outside(5, 1)
    l = r.line()
    check(l.is_valid and l.prediction_failed and not l.prediction_valid, "a line touched once predicts nothing, however long it takes to be broken through")
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE, "nothing is predicted")
    check(l.prediction_intersection is None and l.prediction_y is None, "nothing is predicted")


def c35_too_early_upper():
    too_early(True)


def c35_too_early_lower():
    too_early(False)


def waiting(upper):
    """time runs out for the retest"""
    r, l, p = broken(upper)
    t = num("t")
    assume(t > 6 and t < 300)
    r.outside(t, 1)
    add(r, l)
    check(l.prediction_failed == (t >= 5.5 + 5.5 / GOLD), "a line not retested in time predicts nothing")
    check(not l.prediction_succeeded, "nothing has come of it")


def c35_waiting_upper():
    waiting(True)


def c35_waiting_lower():
    waiting(False)


def again(upper):
    """crossed back before the retest"""
    r, l, p = broken(upper)
    r.inside(7, 1)
    add(r, l)
    check(l.prediction_failed and not l.prediction_succeeded, "a line crossed back has failed")


def c35_again_upper():
    again(True)


def c35_again_lower():
    again(False)


def state(l):
    return (l.prediction_phase, l.prediction_failed, l.prediction_succeeded, l.prediction_valid, l.prediction_y, l.prediction_x_min, l.prediction_x_max, l.prediction_retest_point,
            l.prediction_extrema, l.prediction_intersection, l.prediction_success_point)


def points_of(l, touches, crossings, extremes):
    """the line with the touches, crossings and extremes given"""
    l.tangent_points = list(touches)
    l.intersections = list(crossings)
    l.extremas = list(extremes)
    l.reset_prediction()


class Told:
    """a valid line (0, y0) .. (4, y0 + 4 m) told of its touches, crossings and extremes"""

    def __init__(self, upper):
        self.r, self.l = four(upper)
        self.upper = upper
        r = self.r
        self.touches = [(0, r.y(0)), (2, r.y(2)), (4, r.y(4))]
        self.crossings = []
        self.extremes = []
        self.seen = 5
        points_of(self.l, [], [], [])

    def touch(self, x):
        self.touches.append((x, self.r.y(x)))
        self.seen = x

    def cross(self, x):
        self.crossings.append((x, self.r.y(x)))
        self.seen = x

    def extreme(self, x, d):
        p = (x, self.r.y(x) - inner(self.upper, d))
        self.extremes.append(p)
        self.seen = x
        return p

    def look(self):
        l = self.l
        l.tangent_points = list(self.touches)
        l.intersections = list(self.crossings)
        l.extremas = list(self.extremes)
        l.update_prediction([(self.seen, self.r.y(self.seen))])
        return l


def retested(upper):
    t = Told(upper)
    t.look()
    t.cross(6)
    d = pos("d")
    p = t.extreme(7, d)
    t.touch(9)
    l = t.look()
    return t, l, p, d


def retest(upper):
    t, l, p, d = retested(upper)
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_RETESTED and not l.prediction_failed, "a line touched from the other side in time")
    same(l.prediction_retest_point, (9, t.r.y(9)), "the retest")
    target(t.r, l, t.crossings[0], p, "retested")
    before = state(l)
    t.look()
    same(state(l), before, "looking again changes nothing")


def c35_retest_upper():
    retest(True)


def c35_retest_lower():
    retest(False)


def late_retest(upper):
    t = Told(upper)
    t.cross(6)
    t.extreme(7, 1)
    x = num("x")
    assume(x > 7)
    t.touch(x)
    l = t.look()
    check(l.prediction_failed == (x > 6 + 6 / GOLD), "a retest comes in time")
    check((l.prediction_phase == TrendLine.PREDICTION_PHASE_RETESTED) == (x <= 6 + 6 / GOLD), "a retest comes in time")


def c35_late_retest_upper():
    late_retest(True)


def c35_late_retest_lower():
    late_retest(False)


def blind_retest(upper):
    """a retest needs an extreme to aim at"""
    t = Told(upper)
    t.cross(6)
    t.touch(7)
    l = t.look()
    check(l.prediction_failed, "a retest before any extreme predicts nothing")


def c35_blind_retest():
    blind_retest(True)
    blind_retest(False)


def confirm(upper):
    t, l, p, d = retested(upper)
    e = num("e")
    assume(e > 0)
    q = t.extreme(10, e)
    t.look()
    # the confirmation line leads from the start of the line through the extreme
    over = e >= d * 10 / 7
    reach = t.crossings[0][1] + (p[1] - t.crossings[0][1]) * GOLD_2
    hit = q[1] >= reach if upper else q[1] <= reach
    want = TrendLine.PREDICTION_PHASE_RETESTED
    if over:
        want = TrendLine.PREDICTION_PHASE_FULFILLED if hit else TrendLine.PREDICTION_PHASE_CONFIRMED
    check(l.prediction_phase == want, "confirmed beyond the line through the extreme, fulfilled at what was predicted")
    check(l.prediction_succeeded == (over and hit), "it succeeds when fulfilled")
    check(not l.prediction_failed, "it does not fail in time")
    if over and hit:
        same(l.prediction_success_point, q, "where it succeeded")
    same(l.prediction_extrema, p, "what is predicted is settled by the retest")
    same(l.prediction_retest_point, (9, t.r.y(9)), "the retest")


def c35_confirm_upper():
    confirm(True)


def c35_confirm_lower():
    confirm(False)


def fulfil(upper):
    """confirmed first, fulfilled later, or not at all"""
    t = Told(upper)
    r = t.r
    assume(r.m == 0)
    t.cross(6)
    p = t.extreme(7, 7)
    t.touch(9)
    t.look()
    t.extreme(10, 10)
    l = t.look()
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_CONFIRMED, "confirmed on the line through the extreme")
    x = num("x")
    assume(x > 10)
    e = pos("e")
    q = t.extreme(x, e)
    t.look()
    hit = e >= 7 * GOLD_2
    late = x >= 7 + 7 * GOLD
    check(l.prediction_succeeded == hit, "fulfilled at what was predicted")
    check(l.prediction_failed == (late and not hit), "it fails when its time is over")
    check((l.prediction_phase == TrendLine.PREDICTION_PHASE_FULFILLED) == hit, "fulfilled at what was predicted")
    before = state(l)
    t.extreme(x + 1, 1)
    t.cross(x + 2)
    t.look()
    if hit or late:
        same(state(l), before, "what has succeeded or failed stays so")
    else:
        check(l.prediction_failed, "crossed back, it has failed")


def c35_fulfil_upper():
    fulfil(True)


def c35_fulfil_lower():
    fulfil(False)


def expiry(upper):
    """time runs out after the retest"""
    t, l, p, d = retested(upper)
    x = num("x")
    assume(x > 9)
    t.seen = x
    t.look()
    check(l.prediction_failed == (x >= 7 + 7 * GOLD), "a prediction lasts for the golden ratio of the time to its extreme")
    check(not l.prediction_succeeded, "nothing has come of it")


def c35_expiry_upper():
    expiry(True)


def c35_expiry_lower():
    expiry(False)


def expiry_confirmed(upper):
    """time runs out after the confirmation"""
    t = Told(upper)
    assume(t.r.m == 0)
    t.cross(6)
    t.extreme(7, 7)
    t.touch(9)
    t.look()
    t.extreme(10, 10)
    l = t.look()
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_CONFIRMED, "confirmed on the line through the extreme")
    x = num("x")
    assume(x > 10)
    t.seen = x
    t.look()
    check(l.prediction_failed == (x >= 7 + 7 * GOLD), "a confirmed prediction lasts as long as any")
    check(not l.prediction_succeeded, "nothing has come of it")
    before = state(l)
    t.extreme(x + 1, 100)
    t.look()
    if x >= 7 + 7 * GOLD:
        same(state(l), before, "what has failed stays so")
    else:
        check(l.prediction_succeeded, "fulfilled at what was predicted")


def c35_expiry_confirmed_upper():
    expiry_confirmed(True)


def c35_expiry_confirmed_lower():
    expiry_confirmed(False)


def at_once(upper):
    """seen together: an extreme beyond the time, then one that is far enough"""
    t = Told(upper)
    assume(t.r.m == 0)
    t.cross(6)
    t.extreme(7, 7)
    t.touch(9)
    t.extreme(10, 10)
    x = num("x")
    assume(x > 10)
    e = pos("e")
    t.extreme(x, e)
    t.extreme(x + 1, 100)
    l = t.look()
    late = x >= 7 + 7 * GOLD
    hit = e >= 7 * GOLD_2
    check(l.prediction_succeeded == (hit or not late), "fulfilled by the first that is far enough, in time")
    check(l.prediction_failed == (late and not hit), "it fails when its time is over")


def c35_at_once_upper():
    at_once(True)


def c35_at_once_lower():
    at_once(False)


def moved(upper):
    """before the retest, the target follows the furthest extreme"""
    t = Told(upper)
    t.cross(6)
    t.extreme(6.5, 1)
    t.look()
    d = pos("d")
    p = t.extreme(7, d)
    l = t.look()
    target(t.r, l, t.crossings[0], p, "moved")
    t.touch(8)
    t.look()
    q = t.extreme(8.5, d / 2)
    t.touch(9)
    t.look()
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_RETESTED, "retested again")
    same(l.prediction_retest_point, (9, t.r.y(9)), "the last retest")
    target(t.r, l, t.crossings[0], q, "retested again")


def c35_moved_upper():
    moved(True)


def c35_moved_lower():
    moved(False)


def inner_extremes(upper):
    """extremes on the inner side predict nothing"""
    t = Told(upper)
    t.extremes.append((5, t.r.y(5) + inner(upper, pos("d"))))
    t.cross(6)
    l = t.look()
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_INTERSECTED, "broken through")
    check(l.prediction_y is None, "nothing to aim at yet")
    t.extremes.append((7, t.r.y(7) + inner(upper, pos("e"))))
    t.look()
    check(l.prediction_y is None, "nothing to aim at yet")


def c35_inner_extremes():
    inner_extremes(True)
    inner_extremes(False)


def tolerant(upper):
    """C35: within the tolerance of what was predicted is close enough"""
    r, _ = four(upper)
    l = feed(straight(upper, 3, 0.5), r.ps)
    t = Told(upper)
    t.l = l
    points_of(l, [], [], [])
    t.r = r
    assume(r.m == 0)
    t.cross(6)
    t.extreme(7, 7)
    t.touch(9)
    l = t.look()
    e = pos("e")
    t.extreme(10, e)
    t.look()
    check((l.prediction_phase >= TrendLine.PREDICTION_PHASE_CONFIRMED) == (e >= 10.5), "confirmed only beyond the tolerance")
    if e >= 10.5:
        check(l.prediction_succeeded == (e >= 7 * GOLD_2 - 0.5), "fulfilled within the tolerance")


def c35_tolerant_upper():
    tolerant(True)


def c35_tolerant_lower():
    tolerant(False)


def c35_invalid():
    """a line of too few points predicts nothing"""
    l = feed(straight(True, 3), [(0, 1), (1, 0), (2, 1), (3, 0), (5, 9)])
    check(not l.is_valid and l.prediction_origin is None, "a line of too few points predicts nothing")
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE and not l.prediction_failed and not l.prediction_succeeded, "a line of too few points predicts nothing")


def c35_regrown():
    """a further touch of the line starts the prediction over"""
    r, l, p = broken(True)
    assume(r.m == 0)
    r.on(7)
    add(r, l)
    check(len(l.trend_points) == 4, "a further point of the line")
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_RETESTED, "retested")
    same(l.prediction_retest_point, r.ps[-1], "the retest")
    check(xs(l.tangent_points) == [0, 2, 4, 7], "the touches")
    check(len(l.intersections) == 1, "the crossing")


def touched(upper, n, touches):
    """a line of at least n points, with the number of touches, then broken through"""
    r = Run(upper)
    x = 0
    for k in range(n - touches):
        r.on(x)
        x += 1
    for k in range(touches):
        r.on(x)
        r.inside(x + 1, 1)
        x += 2
    r.outside(x, 1)
    l = r.line(n)
    check(l.is_valid, "the line is valid")
    check(len(l.tangent_points) == touches, "every stretch on the line is a touch")
    check(len(l.intersections) == 1, "a change of sides is a crossing")
    return l


def c35_touch_count():
    for n, k in [(3, 1), (3, 2), (4, 1), (4, 3), (2, 1)]:
        l = touched(True, n, k)
        check(l.prediction_failed and l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE, "a line touched too seldom predicts nothing")
    for n in [3, 4]:
        l = touched(False, n, n)
        check(not l.prediction_failed and l.prediction_phase == TrendLine.PREDICTION_PHASE_INTERSECTED, "a line touched often enough predicts")


def c35_reset():
    """a prediction which starts over knows nothing of the one before"""
    t, l, p, d = retested(True)
    assume(t.r.m == 0)
    e = t.extreme(10, 100 + d * 100)
    t.look()
    check(l.prediction_succeeded, "fulfilled")
    l.reset_prediction()
    same(state(l), state(feed(straight(True), [(0, 1)])), "nothing is left of the prediction before")
    check(not l.prediction_succeeded and not l.prediction_failed, "nothing is left of the prediction before")
    t.touches = t.touches[:2]
    t.crossings = []
    t.extremes = []
    t.cross(6)
    t.look()
    check(l.prediction_failed, "a line touched too seldom predicts nothing")
    l.reset_prediction()
    t.touches.append((4, t.r.y(4)))
    t.touch(7)
    t.look()
    check(l.prediction_failed and not l.prediction_succeeded and l.prediction_y is None, "a retest before any extreme predicts nothing")
    l.reset_prediction()
    t.touches = t.touches[:3]
    q = t.extreme(6.5, 1)
    t.look()
    check(not l.prediction_failed, "nothing is left of the prediction before")
    target(t.r, l, t.crossings[0], q, "started over")


def taken_back(upper):
    """points taken back leave nothing behind"""
    r, l, p = broken(upper)
    r.inside(7, 1)
    add(r, l)
    check(l.prediction_failed, "a line crossed back has failed")
    l.begin_update(Interval.gte(5.5), r.ps[:6])
    check(xs(l.tangent_points) == [0, 2, 4] and xs(l.extremas) == [1, 3, 5] and len(l.intersections) == 0, "what was found of the points taken back is gone")
    check(not l.prediction_failed and l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE and l.prediction_y is None, "nor has the line failed because of them")
    l.begin_update(Interval.gte(4.5), r.ps[:5])
    check(xs(l.tangent_points) == [0, 2, 4] and xs(l.extremas) == [1, 3], "what was found of the points taken back is gone")
    l.begin_update(Interval.gte(3.5), r.ps[:4])
    check(not l.is_valid and xs(l.trend_points) == [0, 2], "a line of the points that are left")
    r.ps = r.ps[:4]
    r.on(4)
    add(r, l)
    check(l.is_valid, "the line is found again")


def c35_taken_back_upper():
    taken_back(True)


def c35_taken_back_lower():
    taken_back(False)


def c35_crossed_within():
    """a crossing keeps its place when the line goes on beyond it"""
    r, l, p = broken(True)
    assume(r.m == 0)
    r.inside(7, 3)
    add(r, l)
    r.on(9)
    add(r, l)
    check(len(l.trend_points) == 4 and xs(l.tangent_points) == [0, 2, 4, 9], "the line goes on")
    check(len(l.intersections) == 2, "the crossings")
    if len(l.intersections) == 2:
        r.point(l.intersections[0], 5.5, "a crossing lies on the line, between the points on either side")
        r.point(l.intersections[1], 6.25, "a crossing lies on the line, between the points on either side")
    check(l.prediction_failed, "a line crossed back has failed")


def late(upper):
    """told at once: an extreme after the time is over, then one at what was predicted"""
    t, l, p, d = retested(upper)
    t.extreme(10, d * 2)
    t.extreme(19, d / 2)
    t.extreme(20, d * 9)
    assume(t.r.m == 0)
    l = t.look()
    check(l.prediction_failed and not l.prediction_succeeded, "fulfilled too late is not fulfilled")
    check(l.prediction_phase == TrendLine.PREDICTION_PHASE_CONFIRMED, "confirmed before")


def c35_late():
    late(True)
    late(False)
