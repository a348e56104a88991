"""Obligations: entry contexts for the analysed package, and what they decide.

A *scenario* is a function of a driver module.  It is text analysed together
with the package by the abstract interpreter (an entry context, as a driver is
for any whole-program abstract interpreter); neither is executed.  Scenarios
call the package and state obligations with the primitives below.
"""
import ast
import math
import os
import sys
import random
from fractions import Fraction
from .models import Models, num
from .engine import Stop
from .values import *
from .program import Program


class Report:
    def __init__(self, scenario, msg, where, st, eng, chain):
        self.scenario = scenario
        self.msg = msg
        self.where = where
        self.chain = chain
        self.facts = st.facts.describe()
        self.path = ["%s:%d %s -> %s" % (os.path.basename(w[0]), w[1], w[2], b) for w, b in st.steps()]

    def key(self):
        return (self.scenario, self.msg)


class Engine(Models):
    def __init__(self, program):
        super().__init__(program)
        self.scenario = None
        self.obligations = {}     # (scenario, text) -> [discharged, undecided, violated]
        self.found = {}
        self.undecided_why = {}
        self.dropped = 0

    # ------------------------------------------------------------- primitives
    def _str(self, v):
        assert isinstance(v, Const) and isinstance(v.v, str), v
        return v.v

    def prim_num(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]))))]

    def prim_pos(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), meta="positive")))]

    def prim_nonneg(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), meta="nonneg")))]

    def prim_maybe(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), nullable=True)))]

    def prim_integer(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), isint=True)))]

    def prim_string(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), kind="str")))]

    def prim_thing(self, st, args, kw, node):
        return [(st, atom("in", self._str(args[0]), kind="obj"))]

    def prim_boolean(self, st, args, kw, node):
        return [(st, self.res(st, atom("in", self._str(args[0]), kind="bool")))]

    def prim_ival(self, st, args, kw, node):
        """ival(name, finite=False, empty=None)"""
        v = atom("in", self._str(args[0]), kind="interval")
        f = st.facts
        if kw.get("finite") == TRUE:
            f = f.with_bool(atom("neg_inf", v, kind="bool"), False)
            f = f.with_bool(atom("pos_inf", v, kind="bool"), False)
        if kw.get("empty", FALSE) == FALSE:
            f = f.with_bool(atom("empty", v, kind="bool"), False)
        st.facts = f
        return [(st, v)]

    def prim_fn(self, st, args, kw, node):
        """fn(name, arity, kind): an unknown function"""
        ar = args[1].v if len(args) > 1 else None
        kind = args[2].v if len(args) > 2 else "nnum"
        return [(st, atom("in", self._str(args[0]), kind="func", meta=(kind, ar)))]

    def prim_app(self, st, args, kw, node):
        """app(name, *args): an unknown number determined by the arguments"""
        return [(st, self.app(st, atom("in", self._str(args[0]), kind="func"), args[1:], "num"))]

    def prim_napp(self, st, args, kw, node):
        return [(st, self.app(st, atom("in", self._str(args[0]), kind="func"), args[1:], "nnum"))]

    def prim_bapp(self, st, args, kw, node):
        return [(st, self.app(st, atom("in", self._str(args[0]), kind="func"), args[1:], "bool"))]

    def prim_log(self, st, args, kw, node):
        st.event("log", *[self.key(st, a) for a in args])
        return [(st, NONE)]

    def prim_logged(self, st, args, kw, node):
        """the tuples logged under a first item, as a list"""
        tag = self.res(st, args[0])
        out = []
        for e in st.events():
            if e[0] == "log" and e[1] == tag:
                out.append(TupleV(e[2:]))
        return [(st, self.newlist(st, out))]

    def prim_calls(self, st, args, kw, node):
        """argument tuples of the calls made to an unknown function"""
        f = self.res(st, args[0])
        out = [TupleV(e[2]) for e in st.events() if e[0] == "call" and e[1] == f]
        return [(st, self.newlist(st, out))]

    def prim_forget_log(self, st, args, kw, node):
        st.trace = None
        return [(st, NONE)]

    def prim_assume(self, st, args, kw, node):
        out = []
        for s, b in self.truth(st, args[0], node):
            if b is True:
                out.append((s, NONE))
        return out

    def prim_stop(self, st, args, kw, node):
        return []

    def prim_undecided(self, st, v):
        return st.taint is not None or isinstance(v, UnknownV)

    def prim_check(self, st, args, kw, node):
        msg = self._str(args[1])
        v = self.res(st, args[0])
        if isinstance(v, UnknownV):
            self._undecided(st, msg, repr(v))
            return [(st, NONE)]
        out = []
        for s, b in self.truth(st, v, node):
            if isinstance(b, ExcV):
                out.append((s, b))
            elif b:
                self._ok(s, msg)
                out.append((s, NONE))
            else:
                self._bad(s, msg, node)
                out.append((s, NONE))
        return out

    def prim_same(self, st, args, kw, node):
        """same(actual, expected, msg)"""
        msg = self._str(args[2])
        out = []
        for s, b in self._same(st, args[0], args[1], node):
            if isinstance(b, ExcV):
                out.append((s, b))
            elif isinstance(b, UnknownV):
                self._undecided(s, msg, repr(b))
                out.append((s, NONE))
            elif b:
                self._ok(s, msg)
                out.append((s, NONE))
            else:
                subs = self.refine(s, args[:2])
                if subs is None:
                    self._bad(s, msg, node, self.res(s, args[0]), self.res(s, args[1]))
                else:
                    wrong = False
                    for s2 in subs:
                        for s3, b2 in self._same(s2, args[0], args[1], node):
                            if b2 is False:
                                wrong = True
                                self._bad(s3, msg, node, self.res(s3, args[0]), self.res(s3, args[1]))
                            elif b2 is not True:
                                wrong = True
                                self._undecided(s3, msg, repr(b2))
                    if not wrong:
                        self._ok(s, msg) if subs else None
                        self.dropped += not subs
                out.append((s, NONE))
        return out

    def refine(self, st, vals=()):
        """the cases of the whole parts a path depends on; None: of none"""
        todo = set()
        f = st.facts
        for p in [p for p, _ in f.lin] + list(f.ne):
            for m in p.t:
                for a, _ in m:
                    deep_atoms(a, todo)
        for v in list(f.nulls) + list(f.bools):
            deep_atoms(v, todo)
        for v in vals:
            v = self.res(st, v)
            if num(v) and to_rat(v) is not None:
                deep_atoms(v, todo)
        todo = sorted([a for a in todo if a.op == "floor"], key=lambda a: a.id)
        if not todo:
            return None
        cur = [st]
        for a in todo[:3]:
            nxt = []
            for s in cur:
                n = self.res(s, a)
                if not isinstance(n, Atom) or n.op != "floor":
                    nxt.append(s)
                    continue
                arg = n.args[0]
                for k in range(-4, 9):
                    g = s.facts
                    if k > -4:
                        g = g.with_cmp(r_add(Const(k), arg, -1), "<=")
                    if g is not None and k < 8:
                        g = g.with_cmp(r_add(arg, Const(k + 1), -1), "<")
                    if g is not None:
                        if -4 < k < 8:
                            g = g._with_subst(n, Const(k))
                        elif k == 8:
                            g = g.with_cmp(r_add(Const(8), n, -1), "<=")
                        else:
                            g = g.with_cmp(r_add(n, Const(4)), "<=")
                    if g is not None:
                        s2 = s.fork()
                        s2.facts = g
                        nxt.append(s2)
            cur = nxt
        return cur

    def prim_fail(self, st, args, kw, node):
        self._bad(st, self._str(args[0]), node)
        return []

    def prim_show(self, st, args, kw, node):
        print("SHOW", [self.pretty(st, self.res(st, a)) for a in args], "|", st.facts.describe(), "| taint", st.taint)
        return [(st, NONE)]

    def pretty(self, st, v):
        v = self.res(st, v)
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, Lst):
                return "[%s]" % ", ".join(self.pretty(st, x) if k == "e" else "*" + show(x) for k, x in r.segs)
            if isinstance(r, Obj):
                return "<%s>" % r.cls.name
            return repr(v)
        if isinstance(v, TupleV):
            return "(%s)" % ", ".join(self.pretty(st, x) for x in v.items)
        return show(v) if isinstance(v, (Atom, Rat, Const)) else repr(v)

    # ------------------------------------------------------------- comparing
    def _same(self, st, a, b, node):
        a, b = self.res(st, a), self.res(st, b)
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return [(st, a if isinstance(a, UnknownV) else b)]
        if num(a) and num(b) and to_rat(a) is not None and to_rat(b) is not None:
            if self._close(a, b):
                return [(st, True)]
        xs, ys = self._known_seq(st, a), self._known_seq(st, b)
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return [(st, False)]
            cur = [st]
            out = []
            for x, y in zip(xs, ys):
                nxt = []
                for s in cur:
                    for s2, r in self._same(s, x, y, node):
                        if r is True:
                            nxt.append(s2)
                        else:
                            out.append((s2, r))
                cur = nxt
            return out + [(s, True) for s in cur]
        if (xs is None) != (ys is None):
            if not isinstance(a, Ref) or isinstance(st.heap[a.id], Lst) and xs is not None:
                return [(st, False)]
        # nullable values
        for v, w in ((a, b), (b, a)):
            if isinstance(v, Atom) and v.nullable and st.facts.null(v) is None and v != w:
                out = []
                for s, _ in self.denull(st, v):
                    out += self._same(s, a, b, node)
                return out
        out = []
        for s, r in self.eq(st, a, b, node):
            out.append((s, r))
        return out

    def _close(self, a, b):
        """equal up to rounding of the constants"""
        d = r_add(a, b, -1)
        if isinstance(d, Const):
            m = max(1, abs(Fraction(a.v)) if isinstance(a, Const) else 1)
            return abs(Fraction(d.v)) <= m * Fraction(1, 10 ** 9)
        r = to_rat(d)
        if r is None:
            return False
        n, _ = r
        ra, rb = to_rat(a), to_rat(b)
        scale = max([abs(c) for c in list(ra[0].t.values()) + list(rb[0].t.values())] + [Fraction(0)])
        return all(abs(c) <= scale * Fraction(1, 10 ** 9) for c in n.t.values())

    def _known_seq(self, st, v):
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, SeqV):
            return list(v.vals)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], Lst) and st.heap[v.id].known():
            return st.heap[v.id].items()
        return None

    # ------------------------------------------------------------- verdicts
    def _row(self, msg):
        return self.obligations.setdefault((self.scenario, msg), [0, 0, 0])

    def _ok(self, st, msg):
        if st.taint is not None or st.havoc:
            self._undecided(st, msg, st.taint or "summarised loop")
            return
        self._row(msg)[0] += 1

    def _undecided(self, st, msg, why):
        if st.taint is not None:
            why = st.taint
        self._row(msg)[1] += 1
        self.undecided_why.setdefault((self.scenario, msg), why)

    def _bad(self, st, msg, node, *vals):
        if st.taint is not None:
            self._undecided(st, msg, st.taint)
            return
        if not self.consistent(st):
            self.dropped += 1
            return
        subs = self.refine(st)
        if subs is None:
            w = self.witness(st)
        else:
            w = False
            for s in subs:
                x = self.witness(s) if self.consistent(s) else False
                if x is True:
                    w, st = True, s
                    break
                if x is None:
                    w = None
        if w is False:
            self.dropped += 1
            return
        if w is None:
            if __import__("os").environ.get("DBG"): print("BEYOND", st.facts.describe())
            self._undecided(st, msg, "the facts of the path are beyond the domain")
            return
        self._row(msg)[2] += 1
        text = msg
        k = (self.scenario, msg)
        if k not in self.found:
            r = Report(self.scenario, text, self.where(node), st, self, [f.func.qual() for f in self.stack])
            if vals:
                r.vals = [self.pretty(st, v) for v in vals]
            self.found[k] = r

    def witness(self, st):
        """does a point satisfy the numeric facts? True / None (unknown)"""
        f = st.facts
        cons = [(p, op) for p, op in f.lin] + [(p, "!=") for p in f.ne]
        monos = {m for p, _ in cons for m in p.t if m}
        if all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("in", "fresh", "app", "start", "end") for m in monos):
            return True
        return True if self._sample(cons) else None

    def _sample(self, cons):
        base = set()

        def leaves(v):
            if isinstance(v, Atom):
                if v.op in ("in", "fresh", "app", "start", "end") or v.kind != "num" or v.op not in EVAL:
                    base.add(v)
                else:
                    for a in v.args:
                        leaves(a)
            elif isinstance(v, Rat):
                for a in atoms_of(v):
                    leaves(a)
        for p, _ in cons:
            for m in p.t:
                for a, _ in m:
                    leaves(a)
        base = sorted(base, key=lambda a: a.id)
        rnd = random.Random(7)
        tol = Fraction(1, 10 ** 6) if any(real(a) for p, _ in cons for m in p.t for a, _ in m) else 0
        for t in range(20000):
            span = rnd.choice((2, 5, 12))
            env = {}
            for a in base:
                x = Fraction(rnd.randint(-span, span))
                if rnd.random() < 0.3:
                    x += Fraction(rnd.randint(1, 3), 4)
                if a.isint:
                    x = Fraction(int(x))
                if a.meta == "positive":
                    x = abs(x) + Fraction(1, 4)
                elif a.meta == "nonneg" or a.op == "len":
                    x = abs(x)
                env[a] = x
            try:
                for p, op in cons:
                    v = sum((c * _mono(m, env) for m, c in p.t.items()), Fraction(0))
                    if not {"<": v < -tol, "<=": v <= 0, "=": v == 0, "!=": abs(v) > tol}[op]:
                        break
                else:
                    return True
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
        return False

    # ------------------------------------------------------------- running
    def run(self, mod, fn, limit=None):
        self.scenario = fn.name
        self.steps = 0
        if limit:
            self.MAX_STEPS = limit
        st = State()
        out = self.make_module_func(fn, mod, st)
        ends = 0
        for s, f in out:
            for s2, v in self.call_func(s, f, [], {}, fn):
                ends += 1
                if isinstance(v, ExcV):
                    msg = "no exception reaches the caller"
                    e = v.exc
                    if s2.taint is None:
                        self._bad(s2, "%s: %s(%s) raised in %s" % (msg, e.name, ", ".join(show(a) if isinstance(a, (Atom, Rat)) else str(getattr(a, "v", a)) for a in e.args), v.where[2]), v.node or fn)
                    else:
                        self._undecided(s2, msg, s2.taint)
                elif s2.taint is not None:
                    self._undecided(s2, "path completes", s2.taint)
        return ends


REAL = {"math.sin", "math.cos", "math.sqrt", "math.atan2", "math.tan", "math.atan", "math.exp", "math.asin", "math.acos"}
EVAL = {"min", "max", "abs", "floor", "quot"} | REAL


def real(v):
    """a value computed with real functions, known approximately only"""
    if isinstance(v, Atom):
        return v.op in REAL or any(real(a) for a in v.args)
    return isinstance(v, Rat) and any(real(a) for a in atoms_of(v))


def _num(v, env):
    if isinstance(v, Const):
        return Fraction(v.v)
    if isinstance(v, Atom):
        if v in env:
            return env[v]
        xs = [_num(a, env) for a in v.args]
        if v.op == "min":
            return min(xs)
        if v.op == "max":
            return max(xs)
        if v.op == "abs":
            return abs(xs[0])
        if v.op == "floor":
            return Fraction(xs[0].__floor__())
        if v.op == "quot":
            return xs[0]
        if v.op in REAL:
            return Fraction(getattr(math, v.op[5:])(*[float(a) for a in xs]))
        raise ValueError(v.op)
    n, d = to_rat(v)
    return sum((c * _mono(m, env) for m, c in n.t.items()), Fraction(0)) / sum((c * _mono(m, env) for m, c in d.t.items()), Fraction(0))


def _mono(m, env):
    r = Fraction(1)
    for a, e in m:
        r *= _num(a, env) ** e
    return r


def load(repo="/repo", drivers=()):
    """parse the package and the driver texts"""
    p = Program(repo, "curvepy")
    mods = []
    for path in drivers:
        name = "_driver_" + os.path.splitext(os.path.basename(path))[0]
        mods.append(p.add(name, path, open(path, encoding="utf-8").read()))
    return p, mods


def scenarios(mod):
    return [n for n in mod.tree.body if isinstance(n, ast.FunctionDef) and n.name[0] == "c" and n.name[1:3].isdigit()]
