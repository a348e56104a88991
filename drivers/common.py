"""Entry contexts shared by the scenarios (analysed, never executed)."""
from curvepy import Curve
from intervalpy import Interval
import math

STEP = 1e-5


class Src(Curve):
    """A curve about which nothing is known: its value is an unknown function
    of the position and of the number of changes made so far."""

    def __init__(self, name, dom=None, min_step=None):
        super().__init__(min_step=min_step)
        self.key = name
        self.version = 0
        self.dom = dom

    def get_domain(self):
        if self.dom is None:
            return Interval.infinite()
        return self.dom

    def y(self, x):
        log(self.key + ".y", x)
        if self.dom is not None and not self.dom.contains(x):
            return None
        return napp(self.key, self.version, x)

    def x_next(self, x, min_step=STEP, limit=None):
        log(self.key + ".x_next", x, min_step, limit)
        return napp(self.key + ".x_next", self.version, x, min_step, limit)

    def x_previous(self, x, min_step=STEP, limit=None):
        log(self.key + ".x_previous", x, min_step, limit)
        return napp(self.key + ".x_previous", self.version, x, min_step, limit)

    def change(self, where, dom=None):
        self.begin_update(where)
        self.version += 1
        if dom is not None:
            self.dom = dom
        self.end_update(where)


def watch(curve, tag):
    """log every notification of a curve"""
    def begin(d):
        log(tag + ".begin", d)

    def end(d):
        log(tag + ".end", d)
    return curve.add_observer(begin=begin, end=end)


def bracketed(curve, x, change, what, changes=True):
    """C01 and C03 for one change of a curve, probed at one position x:
    the values are the old ones when the change is announced and the new ones
    when it is reported done; it is announced and reported once, with the same
    interval; that interval holds every position whose value changed."""
    old = curve.y(x)
    seen = []

    def begin(d):
        log("order", "begin")
        seen.append(("begin", d, curve.y(x)))

    def end(d):
        log("order", "end")
        seen.append(("end", d, curve.y(x)))
    curve.add_observer(begin=begin, end=end)
    change()
    new = curve.y(x)
    if len(seen) == 0:
        check(old == new, what + ": every change of a value is announced")
        return
    check(len(seen) == 2, what + ": announced once and reported once")
    if len(seen) != 2:
        return
    check(seen[0][0] == "begin" and seen[1][0] == "end", what + ": announced before it is reported")
    same(seen[0][2], old, what + ": announced before any value changes")
    same(seen[1][2], new, what + ": reported after every value has changed")
    check(seen[0][1] == seen[1][1], what + ": announced and reported with the same interval")
    check(not curve.is_updating, what + ": no update stays open")
    if old is None:
        if new is not None:
            check(seen[1][1].contains(x), what + ": the interval holds every position that gained a value")
    elif new is None:
        check(seen[1][1].contains(x), what + ": the interval holds every position that lost its value")
    elif old != new:
        check(seen[1][1].contains(x), what + ": the interval holds every position whose value changed")
