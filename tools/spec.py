#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/spec.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": ["curvepy/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


H, I, PR, CF = "histories", "inputs", "programs", "configurations"

prop("C01", "Every change of a curve is announced before it and reported after it",
     """Whenever a change alters a value of a curve (points appended, replaced, set or reset; a constant, line or sine
     redefined; quotes added), its observers are called once while every value is still the old one and once when every value is the
     new one. Both calls carry the same interval, and no update stays open when the change returns.""",
     [I, H], "every source curve, every change it offers, every position probed, every earlier state",
     "The tests watch a few concrete appends; they never read the curve from inside the callbacks, nor vary the points, positions or the change.",
     ["points.py", "constant.py", "line.py", "sin.py", "quotes.py", "curve.py"],
     [("begin_update / end_update pairs around every mutation", "curve.py Curve.begin_update, end_update; points.py Points.set, append_list, replace")],
     [("_begin_update_interval / _end_update_interval", "the update that is open", "curve.py Curve")], ["add_observer callbacks"])

prop("C02", "A rejected change leaves no trace",
     """When a change is refused with an error (points out of order or off the regular spacing, a replacement outside the curve or between
     its points, an incomplete line or sine description), the values and domain of the curve are what they were, no observer has been told anything,
     and no update is left open. A valid change made afterwards works, and notifies, as if the refused one had not been tried.""",
     [I, H], "every refused argument of every mutating operation, from every prior state",
     "The tests check at most that an exception is raised for one bad input; none inspects the state, the observers or a later change.",
     ["points.py", "line.py", "sin.py", "quotes.py"], [("validation before begin_update", "points.py Points.append_list, replace, set; line.py Line.set; sin.py Sin.set")],
     observe=["values, domain, add_observer callbacks, is_updating after the exception"])

prop("C03", "The interval of an update covers every position whose value changed",
     """The interval given to the observers of a curve for a change contains every position at which the value of the curve after the change
     differs from the value before it, including positions interpolated between a changed point and its neighbours and positions that
     gained or lost a value. This holds for changed curves and for the curves derived from them.""",
     [I, H], "every change, every curve derived from the changed one, every position",
     "Tests compare a few announced intervals with literals; none relates the interval to all positions whose value moved.",
     ["points.py", "curve.py", "offset.py", "extension/extension.py", "scan.py"],
     [("update interval computation", "points.py append_list, replace, reset, set; offset.py _offset_interval; scan.py _update_interval; extension.py _extended_update_interval")],
     observe=["interval argument of begin/end callbacks"])

prop("C04", "Observers are called exactly as registered",
     """An observer is called for exactly the updates whose interval intersects the interval it registered for (every update if it named none):
     with the interval if its callback takes one positional argument and without arguments otherwise, prioritised observers first and the others in the order they registered.
     A removed observer, removed by token, by object or with its object, is not called again, and removing one, even from within a callback, neither
     fails nor makes another miss a call.
     Announcements of updates that overlap or nest are merged, and one report covering them all is made when the last of them ends.""",
     [H, I], "every set of registrations and removals, every sequence of nested or overlapping updates",
     "Tests register one or two observers and make one update; orders, intervals, nesting and removal during delivery are not exercised.",
     ["curve.py", "util.py"], [("observer table and token order", "curve.py Curve.add_observer, remove_observer, begin_update, end_update")],
     [("_observer_data, _ordered_observer_tokens", "registrations in delivery order", "curve.py Curve")], ["callbacks"])

prop("C05", "Derived curves pass on every change of each of their sources",
     """A curve derived from others (mapped, offset, combined, piecewise, restricted, extended, averaged, accumulated, with extremas, trends or quote columns) announces
     before and reports after each change of each of its sources, once, with an interval covering every position of its own that may change. When it announces, its values are
     still the old ones, and when it reports, they are the new ones.""",
     [H, I, PR], "every derived curve, every one of its sources, every change and position, chains of derivations",
     "Tests observe one or two derived curves for one append; the other derived curves, secondary sources and values during delivery are never observed.",
     ["map.py", "offset.py", "aggregate.py", "piecewise.py", "generic.py", "scan.py", "ema.py", "extremas.py", "extension/extension.py", "quotes.py"],
     [("subscription of every derived curve to its sources", "the constructors of the derived curves")], observe=["add_observer on derived curves"])

prop("C06", "Whoever is told of a change sees every derived curve up to date",
     """When an observer of a curve is told that a change is done, every curve derived from that curve, directly or through other derived curves, already gives the values
     computed from the new state, whatever the order in which observers and derived curves were created. This also holds after a value was read while the change was in progress.""",
     [H, PR], "every interleaving of registrations, derivations and reads during delivery",
     "Tests read derived curves after the change has returned, never from a callback, and never vary the order of registration.",
     ["curve.py", "scan.py", "map.py", "aggregate.py", "extension/extension.py"], [("prioritised internal observers", "curve.py add_observer(prioritize=True) in every derived curve"), ("stale scans dropped at both ends of an update", "scan.py begin_scan_update, end_scan_update")],
     observe=["values read inside end callbacks"])

prop("C07", "The domain follows every change",
     """After any change the domain of the changed curve and of every curve derived from it is the one a newly built curve over the same data has, also when the domain was asked for before or during the change.""",
     [H], "every change, every derived curve, every earlier query", "Tests ask for a domain once, mostly before any change; caching makes the answer depend on the history.",
     ["curve.py", "points.py", "scan.py", "sma.py", "extension/extension.py", "offset.py", "aggregate.py", "generic.py"],
     [("domain cache dropped at the end of an update", "curve.py Curve.domain, set_needs_interval_update, end_update")], [("_domain", "cached domain", "curve.py Curve")], ["domain"])

prop("C08", "Scanned values do not depend on the history of queries and changes",
     """The value of an average, integral, accumulation, trailing extreme, extremas or trend curve over a source with positions of its own (points or quotes) is, at each position, a function of the present source alone: it is the value a newly built curve would give,
     whatever was asked before, in whatever order, and whatever changes (append, replace, reset, set, also of the last point, again and again) lie in between.""",
     [H, I], "every sequence of queries and source changes", "Tests mostly build a curve and query it ascending; a handful append once.",
     ["scan.py", "accumulator.py", "accumulator_map.py", "ema.py", "sma.py", "integral.py", "extremas.py", "trend.py"],
     [("invalidation of scanned values", "scan.py _reset_stale_scan, reset_scan; accumulator.py begin_update; extremas.py begin_update, reset_scan; trend.py reset_scan")],
     [("current, scan_start, accumulated_points, extremas, nested lines", "what was scanned so far", "scan.py Scan, accumulator.py, extremas.py, trend.py")], ["y after any history"])

prop("C09", "A scan visits every source position once, in ascending order",
     """The step function of an accumulation is called for the source's successive positions in strictly ascending order, from the start of the source, each exactly once with the source's value there and the result accumulated so far,
     and never for a position beyond the queried one. Queries of positions already scanned call it not at all.""",
     [H, I], "every order of queries, every spacing of the source", "Tests compare final sums only; an additional or missing visit can go unnoticed with the sampled transforms.",
     ["scan.py", "accumulator.py", "accumulator_map.py"], [("scan loop", "scan.py Scan.scan"), ("accumulation", "accumulator.py Accumulator._accumulate")], observe=["arguments of the user's step function"])

prop("C10", "A missing value is never a number, and zero is never a missing value",
     """Where an operand, a point or a source has no value (None), arithmetic, averages, ranges, extremes, blends, offsets, samples and derivatives give None or skip it as documented and never fail or use it as a number.
     A value, position, parameter or option equal to 0 is used as the number 0, never treated as absent.""",
     [I], "every place a value can be missing or zero", "Tests use a handful of complete data sets; None inside a source, and zero as value, position or option, hardly occur.",
     ["curve.py", "points.py", "aggregate.py", "sma.py", "ema.py", "integral.py", "extremas.py", "offset.py", "accumulator.py", "quotes.py"],
     [("None guards", "curve.py module functions and aggregate transforms; points.py Points.y; offset.py _interpolated_func; sma.py SMA.y")], observe=["y, get_range, sample_points, d_y"])

prop("C11", "Arithmetic of curves is point-wise and works from either side",
     """For curves and numbers, the sum, difference, product, quotient, power and logarithm, by operator (from either side), by method or over a list, is at each position the operation applied, in order, to the operands' values there; negation, absolute value and inverses likewise.
     Division by zero gives the infinity with the sign of the dividend (non-negative: positive), the domain is what the operands share, and the next (previous) position is the nearest of the operands' next (previous) positions.""",
     [I, PR], "every pair and list of operands, every position", "Tests evaluate a few constants and lines at a few positions.",
     ["curve.py", "aggregate.py", "map.py"], [("aggregate transforms", "curve.py add_many, subtract_many, multiply_many, divide_many, pow_many, log_many"), ("operator methods", "curve.py __add__ ... __rpow__, __neg__, __abs__"), ("steps", "aggregate.py min_or_none, max_or_none")])

prop("C12", "First, minimum and maximum select among the values present",
     """At each position the first of several curves gives the first value present, and the minimum (maximum) the least (greatest) of the values: it is never None while a value is present and the position lies in its domain.
     Minimum and maximum are defined where all the curves are, or where any is when empty ones are to be ignored; first is defined where any is.""",
     [I], "every combination of present and missing values", "Tests use two complete curves.", ["curve.py", "aggregate.py"], [("selection transforms", "curve.py first, min, max"), ("domain of a combination", "aggregate.py get_domain")])

prop("C13", "Indicators are the compositions their definitions name",
     """The simple, exponential and smoothed moving averages, trailing extremes, relative strength index, awesome oscillator, alligator, trailing highs and lows and families of averages give at each position the value of their defining formula over the source's values,
     and have a value exactly from the first position at which the definition has its data.""",
     [I], "every source, every degree and period, every position", "Tests compare a few numbers on one sample series; the quote indicators are hardly compared at all.",
     ["curve.py", "sma.py", "ema.py", "quotes.py", "accumulator_map.py"], [("definitions", "curve.py sma, ema, smma, rsi, harmonic_smas, centered_macs, trailing_min, trailing_max; quotes.py ao, alligator, trailing_high, trailing_low")])

prop("C14", "An option given to an operation reaches what it configures",
     """Every option an operation accepts and documents by its name (step, spacing, interpolation, initial curve, constant, degree or period, ends to extend, tolerance, minimum distance ...) has, through each convenience method, the effect it has on the curve constructed directly, and defaults are the same on both ways.""",
     [CF, I], "every convenience method and each of its options", "Tests use defaults nearly everywhere.", ["curve.py", "quotes.py", "integral.py", "accumulator_map.py", "trend.py", "extension/extension.py"],
     [("forwarding", "curve.py accumulator_map, offset, integral, extension, sma, ema, smma, trailing_min, trailing_max; trend.py _create_line")])

prop("C15", "An offset curve is its source displaced",
     """The value, derivative, domain, next and previous positions and announced intervals of a curve offset by d at x are those of the source at x - d, displaced by d; with a duration, whole durations are stepped and positions between two steps are interpolated linearly between the values there.
     A limit given for a step is a position of the offset curve.""",
     [I], "every source, offset, position, limit", "Tests check a few values of two offsets.", ["offset.py"], [("displacement", "offset.py _offset_x, _unoffset_x, _interpolated_func, _offset_interval, x_next, x_previous")])

prop("C16", "A curve of points passes through its points and interpolates between neighbours",
     """At each of its points a curve of points has exactly that point's value; strictly between two neighbouring points it has the linear interpolation, the left value or the right value, as its interpolation mode says; outside its first and last point it has none.
     The next (previous) position is the nearest point at least the minimum step away, sampling gives the points of the requested interval, and the spacing is reported as uniform exactly when the points are equidistant.""",
     [I, H], "every set of points, regular or irregular, every position, mode and step", "Tests use small integer grids; irregular spacing, positions between points and mixed histories are rarely combined.",
     ["points.py"], [("indexing", "points.py x_index, y, x_next, x_previous, _domain_indexes, _bisect_points, _points_equally_spaced")])

prop("C17", "Straight lines obey line geometry",
     """A line given by two points, a point and a slope, or a constant and a slope passes through what it was given, has that slope everywhere, and finds for a value the position at which it has it (none if a horizontal line never has it); its area between two positions is that of the trapezoid, additive and antisymmetric.
     Two lines given by points intersect at the position both pass through, and not at all when parallel.""",
     [I], "every line, position and value", "Tests check a few lines with small integers.", ["line.py", "trend.py"], [("line equations", "line.py set, y, x, partial_integration; trend.py _line_y, _line_x, _line_intersection")])

prop("C18", "No operation fails for a name or attribute that does not exist",
     """Every attribute, method, module name, local variable and keyword argument an operation of the library uses exists when it is used, on every path and for every curve type and option the operation accepts.""",
     [PR, I], "every path of every function", "Error branches, descriptions and rarely used options are not executed by the tests.", ["*.py", "extension/*.py"], [("definite definition", "every function of the package")])

prop("C19", "Curves are insulated from the lists given to and obtained from them",
     """Changing a list that was passed to a curve or operation (of points, quotes, curves, intervals), or a list one returned (samples, lines, ranges), changes no value of any curve, and changing a copied trend line changes nothing of the original, nor the reverse.
     No two curves share state through default arguments or class attributes.""",
     [H], "every container passed in or handed out", "Tests never modify what they passed or obtained.", ["points.py", "quotes.py", "trend.py", "aggregate.py", "curve.py"], [("copies at the boundary", "points.py set, append_list, sample_points; trend.py TrendLine.__copy__")])

prop("C20", "Reading a curve changes nothing and tells nobody",
     """Asking a curve for values, derivatives, domains, steps, samples, ranges or its description calls no observer, opens no update, and leaves every later answer of that and any other curve the same.""",
     [H, PR], "every query of every curve type, in every state", "Tests never observe curves while only reading them, nor repeat queries.", ["curve.py", "scan.py", "accumulator.py", "extension/extension.py", "integral.py", "trend.py"],
     [("refreshing caches without notifying", "extension.py _update_extension_interval; scan.py scan; accumulator.py")])

prop("C21", "A description denotes the curve it spells out",
     """A descriptor of nested functions, decorators and arguments builds the same curve as the corresponding calls: arguments in order, chained functions applied to the previous result as first argument, named and positional arguments together, logarithmic decorators converting the literals listed inside (at any depth) and raising the result, dates to seconds.
     Building a curve from a descriptor neither changes the descriptor nor depends on descriptors built before, and values, lists of points, callables and curves are accepted directly.""",
     [I, PR, H], "every descriptor of the grammar", "Tests parse a dozen fixed descriptors.", ["curve.py"], [("parser", "curve.py parse, parse_descriptor, parse_many")])

prop("C22", "Quotes are encoded once and their columns read the named field",
     """Every quote added, by construction, set or append, is passed through the encoder exactly once, and the open, high, low, close, volume and mid curves give the named field of the quote in force at each position.
     The range of an interval is from the lowest low to the highest high of its quotes, and samples and first and last quotes are the quotes themselves, in order.""",
     [H, I], "every way of adding quotes, every column, every position", "Tests read a few closes; encoders and the other columns are hardly used.", ["quotes.py"], [("encoding", "quotes.py encode_one, encode_many, append_list, set"), ("columns", "quotes.py open, high, low, close, hl2, volume")])

prop("C23", "Samples lie on the curve, in order, inside the interval",
     """Sampling a curve gives points (x, value at x) with strictly ascending x, all inside the requested interval and the domain, including a closed start and, with a minimum step, a closed end; a fixed step gives the start plus its multiples.
     Sampling from a position gives that many points stepping forward or backward, starting with the position itself unless open, and stops where a step or value is missing.""",
     [I], "every curve, interval, openness, step and count", "Tests sample closed intervals of lines and a few points.", ["curve.py", "scan.py", "points.py"], [("sampling loops", "curve.py sample_points, sample_points_from_x, get_range")])

prop("C24", "Minimising and maximising stop at a local extreme",
     """Searching for a minimum (maximum) from a position moves only downhill (uphill), by the given step or the curve's own step, and the position returned is one whose neighbouring slopes do not descend (ascend) on either side, or the last one with a value, or None when the curve slopes into nothing.
     The number of moves never exceeds the maximum given.""",
     [I], "every curve, start, step and bound", "Tests search two smooth curves.", ["curve.py"], [("search loops", "curve.py minimise, maximise")])

prop("C25", "An extended curve agrees with its source and continues it at the chosen ends",
     """Inside the source's domain an extended curve has the source's values; beyond an end chosen for extension it continues with the constant edge value, the tangent through the edge, or the sine of its period through the edge with the edge's slope, and beyond an end not chosen it has none.
     Its domain and values follow every change of the source, and one that must not be empty raises when its domain or a value beyond its source is asked for while an end cannot be extended.""",
     [I, H], "every source, choice of ends, position and change", "Tests check a few positions, mostly of the end, of fixed lines and points.", ["extension/extension.py", "extension/constant.py", "extension/tangent.py", "extension/sin.py"],
     [("refresh", "extension.py _update_extension_if_needed, _update_extension_interval, y, x_next, x_previous"), ("edges", "constant.py, tangent.py update_extension")])

prop("C26", "Accumulations compute their defining recurrences",
     """The accumulated value at each source position is the step function applied to position, source value and previous result; an integral adds the area between neighbouring positions in its interpolation mode to its constant; an exponential average moves from the previous value towards the new one by its weight; a trailing map applies its function to exactly the values of the last positions it spans.
     Missing source values leave the result unchanged.""",
     [I], "every source, spacing, mode, weight, window", "Tests compare a few sums.", ["accumulator.py", "accumulator_map.py", "integral.py", "ema.py"], [("recurrences", "accumulator.py _accumulate; integral.py _integral_scan; ema.py _ema_scan; accumulator_map.py _accumulator_map_scan")])

prop("C27", "Piecewise, blended and restricted curves give each position to one source",
     """A piecewise curve has at each position the value of the function whose interval contains it, with open and closed ends respected; a restricted curve has its source's value inside the interval and none outside; a blend has, within the first curve's domain, the first curve's value before, the second's after, and in between the mix in proportion to the position.
     The next and previous positions of a piecewise curve lie in its domain.""",
     [I], "every set of intervals, every position, ends included", "Tests evaluate a few interior positions.", ["piecewise.py", "generic.py", "curve.py"], [("selection", "piecewise.py y, x_next, x_previous; generic.py y; curve.py blend, subset")])

prop("C28", "A curve has no value outside its domain and steps never leave it",
     """At a position outside its domain a curve gives None, and never fails; its first and last points, start and end values are those at the ends of its domain.
     From a position of its domain, a step forward (backward) of at least a given finite length gives a greater (smaller) position inside the domain, or None when there is none; a curve that steps freely also stops at a limit lying ahead.""",
     [I, PR], "every curve type, every position, step and limit", "Tests ask inside the domain, or at one position outside.", ["curve.py", "constant.py", "points.py", "aggregate.py", "map.py", "scan.py", "sma.py", "extension/extension.py"],
     [("domain tests", "y of every curve; curve.py x_next, x_previous, first_point, last_point")])

prop("C29", "Trend lines bound and touch their source as their settings demand",
     """Every trend line reported for a position spans at least the minimum width, has at least the minimum number of points that keep the minimum distance from the point before, all of them points of the source, and is searched for at that position; an upper line is formed from highs and a lower line from lows.
     Tolerances widen the line above and below by the absolute or relative amount, whichever is less, and settings reach every line of a trend.""",
     [I, H], "every source and setting", "Tests detect lines in two or three fixed series.", ["trend.py"], [("line acceptance", "trend.py TrendLine.is_valid, Trend._line_filter, _append_point_and_validate, _create_line, _value_tolerance_min, _value_tolerance_max")])

prop("C30", "Extremas are the extremes of the excursions from the reference",
     """The extremas of a curve against a reference are, for each excursion of the curve above or below the reference that is later left for the other side, the position and value at which the curve was furthest out, in ascending order; values closer to the reference than the minimum deviation relative to it start or extend no excursion.
     Between neighbouring extremas the curve is interpolated linearly, and outside the first and last it has no value.""",
     [I, H], "every source, reference, deviation, history", "Tests use one or two fixed waves.", ["extremas.py"], [("scan", "extremas.py _extrema_scan, _confirm_extrema, scanned_y, x_next, x_previous")])

prop("C32", "Regressions are least-squares lines of their samples",
     """The regression of a curve over an interval, with the sampling step or minimum step given, is the straight line with the least sum of squared differences from the curve's samples there (the line through them when they are two),
     and there is none when there are fewer than two samples or one has no value. A trend line fitted to points is likewise their least-squares line, from the first to the last position.""",
     [I], "every set of samples", "Tests fit points that lie exactly on a line.", ["curve.py", "trend.py"], [("regression", "curve.py Curve.regression; trend.py _line_fit, _line_fit_f")])

prop("C34", "A derivative is the slope of the curve's values",
     """The derivative of a curve towards its next (previous) position is the slope of its values between there and the position, and missing where either value is missing; for constants, lines and sine curves, and for the curves computed
     from them that pass their derivative on, it is the slope of the curve at the position. It is never not-a-number where the values are finite.""",
     [I, PR], "every curve type, position and direction", "Tests take derivatives of two curves at a few positions.", ["curve.py", "line.py", "constant.py", "sin.py", "offset.py", "map.py"],
     [("slopes", "curve.py Curve.d_y; line.py d_y; constant.py d_y; sin.py d_y; offset.py d_y")])

prop("C35", "A trend line's touches, crossings, extremes and prediction follow from the points it has seen",
     """Of the source points a trend line has seen within its search interval, every stretch of successive points on the line gives one touch, the point closest to the line; every change of sides gives one crossing, on the line between the points on either side; and every excursion to one side gives one extreme, its highest point above the line, or its lowest below. None is found twice, however often the line is updated.
     A line's prediction passes through the phases broken through (after the minimum number of touches), retested (a touch within the golden section of the time to the crossing), confirmed (an extreme beyond the line through the origin and the previous extreme) and fulfilled (an extreme at the predicted value, within tolerance); the value predicted lies beyond the crossing by the squared golden ratio of the extreme's distance, and expires after the golden ratio of the time to the extreme.
     It fails when the line is crossed back or a time runs out, and what has failed or succeeded stays so until the line is formed anew.""",
     [I, H], "every series of points on, inside and outside of a line, every time and height", "No test looks at the touches, crossings or predictions of a line.", ["trend.py"],
     [("points of interest", "trend.py TrendLine.update_points_of_interest"), ("prediction", "trend.py TrendLine.update_prediction, reset_prediction")])

prop("C36", "What an indicator says of a position does not depend on what comes after it",
     """The value that an average (simple, exponential, smoothed), an integral, a trailing map or extreme, a relative strength, a derivative towards the previous position, a family of averages, a column of quotes
     or a combination of them has at a position, or has not, is the same whether the source ends there or goes on: appending positions to the source neither changes, adds nor takes back what was said of the positions before,
     and a curve made of the longer source says the same of them.""",
     [I, H], "every series, every number of positions appended, every period and degree", "Tests compute each indicator once over a complete series.",
     ["sma.py", "ema.py", "integral.py", "accumulator.py", "accumulator_map.py", "scan.py", "curve.py", "quotes.py"],
     [("first positions of averages", "sma.py SMA.get_domain, SMA._sma_start, SMA._sma_end; ema.py EMA.get_domain"), ("scans that stop at the position queried", "scan.py Scan.scan, Scan.continue_scan"), ("trailing windows", "accumulator_map.py AccumulatorMap._accumulator_map_scan")])

# ---------------------------------------------------------------- claimed by
AI = "abstract interpretation of the source (value numbering, nullness, linear facts) from driver-text entry contexts"
RULES = {}
NA = {
    "C31": ("Values are accurate to floating-point precision", "rounding error depends on runtime magnitudes; the abstract domain treats numbers as reals, and no static bound on the error is in reach for arbitrary data"),
    "C33": ("Every query terminates", "termination of sampling and scanning depends on the step functions of arbitrary user curves, for which no static ranking argument exists"),
}
LEVEL_NOTE = ("Each obligation is decided on abstract states covering all inputs of its entry context (positions, values and, where stated, spacings symbolic); containers have the sizes the entry contexts give. "
              "Numbers behave as reals; intervalpy, pyduration, bisect, math are trusted as modelled in absint/models.py. Obligations the domain cannot decide are counted as undecided, never as violations.")


def main():
    sys.path.insert(0, HERE)
    from check import properties_of
    from absint.harness import scenarios
    import ast, glob
    have = set()
    for path in glob.glob(os.path.join(HERE, "drivers", "*.py")):
        class M: tree = ast.parse(open(path, encoding="utf-8").read())
        for fn in scenarios(M):
            have |= set(properties_of(fn))
    import rules
    have |= set(rules.RULES)
    claimed = [p for p in P if p["id"] in have]
    for p in P:
        if p["id"] not in have:
            print("not yet decided:", p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
        for k, (t, why) in NA.items():
            f.write(json.dumps(NA_FULL[k]) + "\n")
    checks = []
    for p in claimed:
        tech = AI
        if p["id"] in rules.RULES:
            tech = (AI + "; " if p["id"] not in ONLY_RULES else "") + "structural rules over the syntax tree: " + ", ".join(f.__doc__.strip().split(":")[0] for f in rules.RULES[p["id"]])
        checks.append({"property": p["id"], "quick_cmd": "/usr/bin/python3 check.py " + p["id"], "thorough_cmd": "/usr/bin/python3 check.py " + p["id"],
                       "technique": tech, "level": "other", "level_note": LEVEL_NOTE})
    man = {"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"",
           "checks": checks, "not_applicable": [{"property": k, "reason": why} for k, (t, why) in NA.items()]
           + [{"property": p["id"], "reason": "its check is still being built"} for p in P if p not in claimed],
           "notes": "Static analysis only: check.py parses /repo/curvepy and never imports or runs it. Repairs made in /repo are listed in known-findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


ONLY_RULES = {"C18"}
NA_FULL = {}
keep = P
P = []
prop("C31", NA["C31"][0], "Values computed on a uniform grid of any length and scale agree with exact arithmetic up to a few units in the last place.", [I], "every grid origin, spacing and length",
     "Tests use small integers.", ["points.py"], [("index arithmetic", "points.py x_index")])
prop("C33", NA["C33"][0], "Every query of a curve over a finite interval returns.", [I, PR], "every curve, including user-defined ones", "Tests only show runs that ended.", ["curve.py", "scan.py"], [("loops", "curve.py sample_points; scan.py scan")])
NA_FULL = {p["id"]: p for p in P}
P = keep
if __name__ == "__main__":
    main()
