"""Transfer functions of operators, builtins, the standard library and the
external packages the analysed code calls."""
import ast
import math
from fractions import Fraction
from .engine import *
from .values import *
from .arrays import Arrays, NdV
from .idioms import Idioms, NTupleV, Gen
from . import engine as _engine

_engine.NTUPLE[0] = (NTupleV,)


def num(v):
    return (isinstance(v, Const) and v.cat() in ("num", "bool")) or isinstance(v, Rat) or \
        (isinstance(v, Atom) and v.kind in ("num", "bool"))


def isinf_const(v):
    return isinstance(v, Const) and isinstance(v.v, float) and math.isinf(v.v)


def isnan_const(v):
    return isinstance(v, Const) and isinstance(v.v, float) and math.isnan(v.v)


def cfrac(v):
    """fold a constant"""
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return Const(v)
        f = Fraction(v)
        return Const(int(f)) if f.denominator == 1 else Const(f)
    if isinstance(v, Fraction):
        return frac_const(v)
    return Const(v)


NUMKINDS = ("num", "bool")


def factors(n):
    """the prime factors of a whole number, as far as they are small"""
    out = []
    p = 2
    while p * p <= n and p < 2000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out


class Models(Idioms, Arrays, Core):

    # ------------------------------------------------------------ numbers
    def arith2(self, st, a, b, node, f):
        """resolve nullable operands, then f(state, a, b)"""
        out = []
        for s, x in self.denull(st, a):
            for s2, y in self.denull(s, b):
                out += f(s2, self.res(s2, x), y)
        return out

    def binop(self, st, op, a, b, node):
        return self.arith2(st, a, b, node, lambda s, x, y: self._binop(s, op, x, y, node))

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.Mod: "mod",
           ast.FloorDiv: "floordiv", ast.BitAnd: "and", ast.BitOr: "or", ast.MatMult: "matmul",
           ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}

    def _binop(self, st, op, a, b, node):
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return [(st, UnknownV("arithmetic on unknown"))]
        name = self.OPS[type(op)]
        if isinstance(a, NdV) or isinstance(b, NdV):
            return self.nd_binop(st, op, a, b, node)
        # objects
        for x, y, m in ((a, b, "__%s__" % name), (b, a, "__r%s__" % name)):
            if isinstance(x, Ref) and isinstance(self.rec(st, x), Obj):
                k, mem = self.p.lookup(self.rec(st, x).cls, m)
                if mem is not None:
                    rs = self.call_method(st, x, m, [y], {}, node)
                    no = [s for s, v in rs if isinstance(v, ExtV) and v.name == "NotImplemented"]
                    if not no:
                        return rs
                    rs = [(s, v) for s, v in rs if s not in no]
                    back = "__r%s__" % name
                    for s in no:
                        if x is a and isinstance(y, Ref) and isinstance(self.rec(s, y), Obj) and self.p.lookup(self.rec(s, y).cls, back)[1] is not None:
                            rs += self.call_method(s, y, back, [x], {}, node)
                        else:
                            rs += self.exc(s, "TypeError", node, "unsupported operands for %s" % name)
                    return rs
        if num(a) and num(b):
            return self.numop(st, op, a, b, node)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and self.is_set(st, a) and self.is_set(st, b):
            return self.set_op(st, name, a, b, node)
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.rec(st, a), Dct) and isinstance(self.rec(st, b), Dct):
            d = self.new(st, self.rec(st, a).copy(), "dict")
            return [(s, d) for s, _ in self.dict_method(st, d, "update", [b], {}, node)]
        if isinstance(op, ast.Add):
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                return [(st, Const(a.v + b.v))]
            if self.is_listish(st, a) and self.is_listish(st, b):
                out = []
                for s, x in self.as_segs(st, a, node):
                    for s2, y in self.as_segs(s, b, node):
                        segs = tuple(x) + tuple(y)
                        if isinstance(a, TupleV):
                            out.append((s2, TupleV([v for _, v in segs])))
                        else:
                            out.append((s2, self.new(s2, Lst(segs), "list")))
                return out
            if self.is_ival(a) and self.is_ival(b):
                return self.ival_union(st, [a, b])
        if isinstance(op, ast.BitOr) and self.is_ival(a) and self.is_ival(b):
            return self.ival_union(st, [a, b])
        if isinstance(op, ast.BitAnd) and self.is_ival(a) and self.is_ival(b):
            return self.ival_inter(st, [a, b])
        if isinstance(op, ast.Mult) and self.is_listish(st, a) and isinstance(b, Const) and isinstance(b.v, int):
            out = []
            for s, x in self.as_segs(st, a, node):
                segs = tuple(x) * b.v
                out.append((s, TupleV([v for _, v in segs]) if isinstance(a, TupleV) else self.new(s, Lst(segs), "list")))
            return out
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            w = b.items if isinstance(b, TupleV) else [b]
            if all(isinstance(x, Const) for x in w):
                try:
                    return [(st, Const(a.v % tuple(int(x.v) if isinstance(x.v, Fraction) and x.v.denominator == 1 else x.v for x in w)))]
                except (TypeError, ValueError) as e:
                    return self.exc(st, type(e).__name__, node, str(e))
            return [(st, atom("fstr", a, self.key(st, b), kind="str"))]
        for x in (a, b):
            if isinstance(x, Atom) and x.kind not in NUMKINDS + ("list", "interval"):
                return [(st, atom("op_" + name, self.key(st, a), self.key(st, b), kind=x.kind if x.kind == "str" else "obj"))]
        return self.exc(st, "TypeError", node, "unsupported operands for %s: %s and %s" % (name, show(a), show(b)))

    def is_set(self, st, v):
        return isinstance(v, Ref) and isinstance(self.rec(st, v), Lst) and self.rec(st, v).kind == "set"

    def set_op(self, st, name, a, b, node):
        """union, intersection, difference of sets with known members"""
        x, y = self.rec(st, a), self.rec(st, b)
        if not x.known() or not y.known():
            return [(st, UnknownV("sets"))]
        if name == "or":
            return self.make_set(st, x.items() + y.items(), node)

        def keep(s, items, other, want):
            cur = [(s, [])]
            for v in items:
                nxt = []
                for s2, acc in cur:
                    for s3, m in self.member(s2, v, other, node):
                        if not isinstance(m, bool):
                            self.taint(s3, "membership in a set")
                            m = False
                        nxt.append((s3, acc + [v] if m == want else acc))
                cur = nxt
            return cur
        out = []
        if name == "xor":
            for s, l in keep(st, x.items(), b, False):
                for s2, r in keep(s, y.items(), a, False):
                    out.append((s2, self.newlist(s2, l + r, "set")))
            return out
        return [(s, self.newlist(s, l, "set")) for s, l in keep(st, x.items(), b, name == "and")]

    def numop(self, st, op, a, b, node):
        a, b = self.nb(a), self.nb(b)
        try:
            return self._numop(st, op, a, b, node)
        except TooBig:
            return [(st, UnknownV("expression too large"))]

    def nb(self, v):
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Const(int(v.v))
        return v

    def _numop(self, st, op, a, b, node):
        if isnan_const(a) or isnan_const(b):
            return [(st, Const(float("nan")))]
        if isinf_const(a) or isinf_const(b):
            return self.infop(st, op, a, b, node)
        if isinstance(op, ast.Add):
            return [(st, r_add(a, b))]
        if isinstance(op, ast.Sub):
            return [(st, r_add(a, b, -1))]
        if isinstance(op, ast.Mult):
            return [(st, r_mul(a, b))]
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            out = []
            for s, z in self.split_cmp(st, b, "="):
                if z:
                    out += self.exc(s, "ZeroDivisionError", node, "division by zero")
                    continue
                q = r_div(self.fn(s, a), self.fn(s, b))
                if q is None:
                    continue
                out += [(s, q)] if isinstance(op, ast.Div) else self.floors(s, q)
            return out
        if isinstance(op, ast.Mod):
            if isinstance(a, Const) and isinstance(b, Const):
                if b.v == 0:
                    return self.exc(st, "ZeroDivisionError", node, "modulo by zero")
                return [(st, cfrac(Fraction(a.v) % Fraction(b.v)))]
            out = []
            for s, z in self.split_cmp(st, b, "="):
                if z:
                    out += self.exc(s, "ZeroDivisionError", node, "modulo by zero")
                    continue
                q = r_div(self.fn(s, a), self.fn(s, b))
                out += [(s2, r_add(a, r_mul(b, f), -1)) for s2, f in self.floors(s, q)]
            return out
        if isinstance(op, ast.Pow):
            return self.power(st, a, b, node)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, int) and isinstance(b.v, int):
            f = {ast.BitAnd: lambda: a.v & b.v, ast.BitOr: lambda: a.v | b.v, ast.BitXor: lambda: a.v ^ b.v,
                 ast.LShift: lambda: a.v << b.v, ast.RShift: lambda: a.v >> b.v}.get(type(op))
            if f:
                return [(st, Const(f()))]
        return [(st, UnknownV("operator"))]

    def fn(self, st, v):
        return st.facts.norm(v) if st.facts.subst else v

    def power(self, st, a, b, node):
        if isinstance(b, Const) and isinstance(b.v, int) and 0 <= b.v <= 8:
            r = Const(1)
            for _ in range(b.v):
                r = r_mul(r, a)
            return [(st, r)]
        if isinstance(b, Const) and isinstance(b.v, int) and -8 <= b.v < 0:
            out = []
            for s, r in self.power(st, a, Const(-b.v), node):
                out += self._numop(s, ast.Div(), Const(1), r, node)
            return out
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, cfrac(float(a.v) ** float(b.v)))]
            except (OverflowError, ZeroDivisionError, ValueError, TypeError):
                return [(st, UnknownV("pow"))]
        if (isinstance(a, Const) and a.v > 0) or (isinstance(a, Atom) and a.op == "sym" and a.args[0] == "e"):
            r = self.antiln(r_mul(self.ln(a), b))
            if r is not None:
                return [(st, r)]
        return [(st, atom("pow", a, b))]

    def infop(self, st, op, a, b, node):
        ia, ib = isinf_const(a), isinf_const(b)
        nan = Const(float("nan"))
        if isinstance(op, (ast.Add, ast.Sub)):
            sb = 1 if isinstance(op, ast.Add) else -1
            if ia and ib:
                v = a.v + sb * b.v
                return [(st, Const(v))]
            return [(st, a if ia else Const(sb * b.v))]
        if isinstance(op, ast.Mult):
            if ia and ib:
                return [(st, Const(a.v * b.v))]
            i, o = (a, b) if ia else (b, a)
            return [(s, nan if g == 0 else Const(i.v * g)) for s, g in self.split3(st, o)]
        if isinstance(op, ast.Div):
            if ia and ib:
                return [(st, nan)]
            if ib:
                return [(st, Const(0))]
            out = []
            for s, g in self.split3(st, b):
                if g == 0:
                    out += self.exc(s, "ZeroDivisionError", node, "division by zero")
                else:
                    out.append((s, Const(a.v * g)))
            return out
        if isinstance(op, ast.Pow) and isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, Const(float(a.v) ** float(b.v)))]
            except Exception:
                return [(st, UnknownV("pow"))]
        if isinstance(op, ast.Mod) and ib and not ia:
            return [(s, a if (g >= 0) == (b.v > 0) or g == 0 else b) for s, g in self.split3(st, a)]
        return [(st, UnknownV("infinite operand"))]

    def floor(self, v, st=None):
        if st is not None and isinstance(v, Rat) and v.d != P1:
            # between which whole numbers does the quotient lie on this path?
            low = None
            for k in range(-5, 7):
                r = st.facts.cmp(r_add(v, Const(k), -1), "<")
                if r is True:
                    if low is not None and low == k - 1:
                        return Const(low)
                    break
                if r is False:
                    low = k
            if low is not None:
                f = floor_value(v)
                g = st.facts.with_cmp(r_add(Const(low), f, -1), "<=")
                if g is not None:
                    st.facts = g
                return f
        return floor_value(v)

    def floors(self, st, v):
        """the floor of a number; a quotient that lies between known whole
        numbers is split into its cases"""
        if isinstance(v, Const) or to_rat(v) is None or is_int_value(v):
            return [(st, self.floor(v, st))]
        low = high = None
        for k in range(-5, 8):
            r = st.facts.cmp(r_add(v, Const(k), -1), "<")
            if r is True:
                high = k
                break
            if r is False:
                low = k
        if low is None or high is None:
            return [(st, self.floor(v, st))]
        if high == low + 1:
            return [(st, Const(low))]
        out = []
        for k in range(low, high):
            f = st.facts.with_cmp(r_add(Const(k), v, -1), "<=")
            if f is not None:
                f = f.with_cmp(r_add(v, Const(k + 1), -1), "<")
            if f is not None:
                s = st.fork()
                s.facts = f
                out.append((s, Const(k)))
        self.n_splits += 1
        return out or [(st, self.floor(v, st))]

    def ceils(self, st, v):
        return [(s, r_neg(r)) for s, r in self.floors(st, r_neg(v))]

    def ceil(self, v, st=None):
        return r_neg(self.floor(r_neg(v), st))

    def unary(self, st, op, v, node):
        out = []
        for s, x in self.denull(st, v):
            if isinstance(x, UnknownV):
                out.append((s, x))
            elif isinstance(x, Ref) and isinstance(self.rec(s, x), Obj):
                m = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
                out += self.call_method(s, x, m, [], {}, node)
            elif num(x):
                x = self.nb(x)
                if isinstance(op, ast.USub):
                    out.append((s, Const(-x.v) if isinstance(x, Const) else r_neg(x)))
                elif isinstance(op, ast.UAdd):
                    out.append((s, x))
                else:
                    out.append((s, UnknownV("invert")))
            else:
                out += self.exc(s, "TypeError", node, "bad operand for unary operator: %s" % show(x))
        return out

    # -------------------------------------------------------- comparisons
    def compare(self, st, op, a, b, node):
        """list of (state, bool | ExcV | UnknownV)"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            neg = isinstance(op, ast.IsNot)
            return [(s, (not v if neg else v) if isinstance(v, bool) else v) for s, v in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(st, a, b, node)
            neg = isinstance(op, ast.NotIn)
            return [(s, (not v if neg else v) if isinstance(v, bool) else v) for s, v in r]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(st, a, b, node)
            neg = isinstance(op, ast.NotEq)
            return [(s, (not v if neg else v) if isinstance(v, bool) else v) for s, v in r]
        return self.arith2(st, a, b, node, lambda s, x, y: self.order(s, op, x, y, node))

    def order(self, st, op, a, b, node):
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return [(st, UnknownV("comparison of unknown"))]
        if num(a) and num(b):
            a, b = self.nb(a), self.nb(b)
            return self.order_num(st, op, a, b)
        if isinstance(a, OpM) and isinstance(b, OpM) and a.name == "__cmpkey__" and b.name == "__cmpkey__":
            out = []
            for s, r in self.call(st, a.recv.items[0], [a.recv.items[1], b.recv.items[1]], {}, node):
                out += [(s, r)] if isinstance(r, (ExcV, UnknownV)) else self.compare(s, op, r, Const(0), node)
            return out
        if self.is_ival(a) or self.is_ival(b):
            return self.ival_order(st, op, a, b, node)
        if self.is_set(st, a) and self.is_set(st, b):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            out = []
            for s, d in self.set_op(st, "sub", a, b, node):
                if isinstance(d, UnknownV):
                    out.append((s, d))
                elif self.rec(s, d).segs:
                    out.append((s, False))
                else:
                    out.append((s, isinstance(op, (ast.LtE, ast.GtE)) or len(self.rec(s, a).segs) < len(self.rec(s, b).segs)))
            return out
        if isinstance(a, TupleV) and isinstance(b, TupleV) or (self.is_listish(st, a) and self.is_listish(st, b)):
            return self.order_seq(st, op, a, b, node)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return [(st, {ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[type(op)])]
        for x in (a, b):
            if isinstance(x, Atom) and x.kind in ("obj", "str"):
                return self.split_bool(st, atom("op_" + type(op).__name__, self.key(st, a), self.key(st, b), kind="bool"))
            if isinstance(x, Ref) and isinstance(self.rec(st, x), Obj):
                m = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
                k, mem = self.p.lookup(self.rec(st, x).cls, m)
                if mem is not None and x is a:
                    out = []
                    for s, v in self.call_method(st, x, m, [b], {}, node):
                        out += [(s, v)] if isinstance(v, (ExcV, UnknownV)) else self.truth(s, v, node)
                    return out
        return self.exc(st, "TypeError", node, "ordering %s and %s" % (show(a), show(b)))

    def order_num(self, st, op, a, b):
        if isnan_const(a) or isnan_const(b):
            return [(st, False)]
        if isinf_const(a) or isinf_const(b):
            x = a.v if isinf_const(a) else 0
            y = b.v if isinf_const(b) else 0
            return [(st, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])]
        try:
            if isinstance(op, ast.Lt):
                return self.split_cmp(st, r_add(a, b, -1), "<")
            if isinstance(op, ast.LtE):
                return self.split_cmp(st, r_add(a, b, -1), "<=")
            if isinstance(op, ast.Gt):
                return self.split_cmp(st, r_add(b, a, -1), "<")
            return self.split_cmp(st, r_add(b, a, -1), "<=")
        except TooBig:
            return [(st, UnknownV("expression too large"))]

    def order_seq(self, st, op, a, b, node):
        out = []
        for s, x in self.as_segs(st, a, node):
            for s2, y in self.as_segs(s, b, node):
                if not all(k == "e" for k, _ in tuple(x) + tuple(y)):
                    out.append((s2, UnknownV("ordering of sequences of unknown length")))
                    continue
                out += self._lex(s2, op, [v for _, v in x], [v for _, v in y], node)
        return out

    def _lex(self, st, op, xs, ys, node):
        if not xs or not ys:
            r = {ast.Lt: len(xs) < len(ys), ast.LtE: len(xs) <= len(ys), ast.Gt: len(xs) > len(ys), ast.GtE: len(xs) >= len(ys)}
            return [(st, r[type(op)])]
        out = []
        for s, e in self.eq(st, xs[0], ys[0], node):
            if e is True:
                out += self._lex(s, op, xs[1:], ys[1:], node)
            elif e is False:
                out += self.compare(s, op, xs[0], ys[0], node)
            else:
                out.append((s, e))
        return out

    def identical(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and y.v is None:
                if isinstance(x, UnknownV):
                    return [(st, UnknownV("unknown is None"))]
                return [(s, isinstance(v, Const) and v.v is None) for s, v in self.denull(st, x)]
            if isinstance(y, Const) and isinstance(y.v, bool):
                if isinstance(x, Atom) and x.kind == "bool":
                    return [(s, v == y.v) for s, v in self.split_bool(st, x)]
                if isinstance(x, Const):
                    return [(st, isinstance(x.v, bool) and x.v == y.v)]
                if isinstance(x, UnknownV):
                    return [(st, x)]
                return [(st, False)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(st, a.id == b.id)]
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return [(st, UnknownV("identity of unknown"))]
        if isinstance(a, (ExtV, ClassV, FuncV, BoundV)) or isinstance(b, (ExtV, ClassV, FuncV, BoundV)):
            return [(st, a == b)]
        if isinstance(a, Ref) != isinstance(b, Ref):
            return [(st, False)]
        return self.eq(st, a, b, None)

    def eq(self, st, a, b, node):
        out = []
        for s, x in self.denull(st, a):
            for s2, y in self.denull(s, b):
                out += self._eq(s2, self.res(s2, x), y, node)
        return out

    def _eq(self, st, a, b, node):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, OpM) and x.name == "__dict__" and isinstance(x.recv, Ref):
                d = self.new(st, Dct({Const(k): v for k, v in self.rec(st, x.recv).f.items()}), "dict")
                return self._eq(st, d, y, node)
        if isinstance(a, UnknownV) or isinstance(b, UnknownV):
            return [(st, UnknownV("equality of unknown"))]
        if isinstance(a, Const) and isinstance(b, Const):
            if a.cat() in ("num", "bool") and b.cat() in ("num", "bool"):
                return [(st, a.v == b.v)]
            return [(st, a.cat() == b.cat() and a.v == b.v)]
        if num(a) and num(b):
            if isinf_const(a) or isinf_const(b) or isnan_const(a) or isnan_const(b):
                return [(st, False)]
            ka = a.kind if isinstance(a, Atom) else None
            kb = b.kind if isinstance(b, Atom) else None
            if ka == "bool" or kb == "bool":
                out = []
                for s, x in self._bools(st, a):
                    for s2, y in self._bools(s, b):
                        out += self._eq(s2, x, y, node)
                return out
            try:
                return self.split_cmp(st, r_add(self.nb(a), self.nb(b), -1), "=")
            except TooBig:
                return [(st, UnknownV("expression too large"))]
        if self.is_ival(a) and (self.is_ival(b)):
            return self.ival_eq(st, a, b)
        if self.is_ival(a) or self.is_ival(b):
            i, o = (a, b) if self.is_ival(a) else (b, a)
            if isinstance(o, Const) and o.v is None:
                return [(st, False)]
            out = []
            for s, p in self.ival_parse(st, o, node):
                out += [(s, p)] if isinstance(p, ExcV) else self.ival_eq(s, i, p)
            return out
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return [(st, True)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(self.rec(st, x), Obj):
                k, mem = self.p.lookup(self.rec(st, x).cls, "__eq__")
                if mem is not None:
                    out = []
                    for s, v in self.call_method(st, x, "__eq__", [y], {}, node):
                        if isinstance(v, ExtV) and v.name == "NotImplemented":
                            o2 = self.rec(s, y) if isinstance(y, Ref) else None
                            if x is a and isinstance(o2, Obj) and o2.cls is not self.rec(s, x).cls and self.p.lookup(o2.cls, "__eq__")[1] is not None:
                                for s2, w in self.call_method(s, y, "__eq__", [x], {}, node):
                                    out += [(s2, False)] if isinstance(w, ExtV) else [(s2, w)] if isinstance(w, (ExcV, UnknownV)) else self.truth(s2, w, node)
                            else:
                                out.append((s, False))
                            continue
                        out += [(s, v)] if isinstance(v, (ExcV, UnknownV)) else self.truth(s, v, node)
                    return out
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return self._eq_items(st, a.items, b.items, node)
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.rec(st, a), self.rec(st, b)
            if isinstance(x, Lst) and isinstance(y, Lst):
                if x.kind != y.kind:
                    return [(st, False)]
                if x.kind == "set" and x.known() and y.known():
                    if len(x.segs) != len(y.segs):
                        return [(st, False)]
                    cur, out = [st], []
                    for v in x.items():
                        nxt = []
                        for s in cur:
                            for s2, m in self.member(s, v, b, node):
                                if m is True:
                                    nxt.append(s2)
                                else:
                                    out.append((s2, m))
                        cur = nxt
                    return out + [(s, True) for s in cur]
                if x.known() and y.known():
                    return self._eq_items(st, x.items(), y.items(), node)
                if self.key(st, a) == self.key(st, b):
                    return [(st, True)]
                return [(st, UnknownV("equality of lists"))]
            if isinstance(x, Dct) and isinstance(y, Dct):
                if set(x.d) != set(y.d):
                    if all(isinstance(k, (Const, Ref, ExtV, ClassV)) for k in list(x.d) + list(y.d)) or len(x.d) != len(y.d):
                        return [(st, False)]
                    return [(st, UnknownV("equality of mappings"))]
                return self._eq_items(st, [x.d[k] for k in x.d], [y.d[k] for k in x.d], node)
            if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and self.is_dataclass(x.cls):
                fs = [f[0] for f in self.ann_fields(x.cls)]
                return self._eq_items(st, [x.f[f] for f in fs], [y.f[f] for f in fs], node)
            return [(st, False)]
        if isinstance(a, Atom) and isinstance(b, Atom) and a.kind == b.kind:
            if a is b:
                return [(st, True)]
            return self.split_bool(st, atom("eq", *sorted((a, b), key=lambda z: z.id), kind="bool"))
        if isinstance(a, Atom) and a.kind in ("obj", "str") or isinstance(b, Atom) and b.kind in ("obj", "str"):
            return self.split_bool(st, atom("eq", self.key(st, a), self.key(st, b), kind="bool"))
        if type(a) is type(b):
            return [(st, a == b)]
        return [(st, False)]

    def _bools(self, st, v):
        if isinstance(v, Atom) and v.kind == "bool":
            return [(s, Const(int(b))) for s, b in self.split_bool(st, v)]
        return [(st, self.nb(v))]

    def _eq_items(self, st, xs, ys, node):
        if len(xs) != len(ys):
            return [(st, False)]
        cur = [st]
        out = []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, e in self.eq(s, x, y, node):
                    if e is True:
                        nxt.append(s2)
                    else:
                        out.append((s2, e))
            cur = nxt
        return out + [(s, True) for s in cur]

    def member(self, st, a, b, node):
        b = self.res(st, b)
        if isinstance(b, OpM) and b.name == "__dict__":
            a = self.res(st, a)
            if isinstance(a, Const) and isinstance(b.recv, Ref):
                return [(st, a.v in self.rec(st, b.recv).f)]
            return [(st, UnknownV("__dict__"))]
        if isinstance(b, Const) and isinstance(b.v, str):
            a = self.res(st, a)
            if isinstance(a, Const) and isinstance(a.v, str):
                return [(st, a.v in b.v)]
            return self.split_bool(st, atom("in", self.key(st, a), b, kind="bool"))
        if isinstance(b, Ref) and isinstance(self.rec(st, b), Dct):
            r = self.rec(st, b)
            k = self.key(st, a)
            if k in r.d:
                return [(st, True)]
            return [(s, q if isinstance(q, UnknownV) else True if q is not None else UnknownV("open mapping") if r.open else False) for s, q in self.dict_find(st, r, k)]
        if isinstance(b, Ref) and isinstance(self.rec(st, b), Obj):
            k, mem = self.p.lookup(self.rec(st, b).cls, "__contains__")
            if mem is not None:
                out = []
                for s, v in self.call_method(st, b, "__contains__", [a], {}, node):
                    out += [(s, v)] if isinstance(v, (ExcV, UnknownV)) else self.truth(s, v, node)
                return out
        if isinstance(b, UnknownV):
            return [(st, b)]
        if isinstance(b, Atom) and b.kind == "obj":
            return self.split_bool(st, atom("in", self.key(st, a), b, kind="bool"))
        out = []
        for s, segs in self.as_segs(st, b, node):
            if isinstance(segs, ExcV):
                out.append((s, segs))
                continue
            cur = [s]
            for kind, v in segs:
                nxt = []
                for s2 in cur:
                    if kind == "s":
                        out.append((s2, UnknownV("membership in a sequence of unknown length")))
                        continue
                    for s3, i in self.identical_ref(s2, a, v, node):
                        if i is False:
                            nxt.append(s3)
                        else:
                            out.append((s3, i))
                cur = nxt
            out += [(s2, False) for s2 in cur]
        return out

    def identical_ref(self, st, a, b, node):
        return self.eq(st, a, b, node)

    # ---------------------------------------------------------- sequences
    def is_listish(self, st, v):
        v = self.res(st, v)
        if isinstance(v, (TupleV, SeqV)):
            return True
        if isinstance(v, Atom):
            return v.kind == "list"
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), Lst)

    def seg_len(self, v):
        if v.op == "range":
            lo, hi, step = v.args
            n = r_add(hi, lo, -1)
            return n if step == Const(1) else r_neg(n)
        if v.op == "mapseq":
            return self.seg_len(v.args[0])
        return atom("len", v, isint=True)

    def list_len(self, st, v):
        v = self.res(st, v)
        if isinstance(v, TupleV):
            return Const(len(v.items))
        if isinstance(v, SeqV):
            return Const(len(v.vals))
        if isinstance(v, Atom):
            return self.seg_len(v)
        n = Const(0)
        for k, x in self.rec(st, v).segs:
            n = r_add(n, Const(1) if k == "e" else self.seg_len(x))
        return n

    def elem(self, st, L, idx, raw=False):
        if L.op == "range":
            return r_add(L.args[0], r_mul(idx, L.args[2]))
        if L.op == "mapseq":
            b = L.args[1]
            return rewrite(b, lambda a: idx if a.op == "bound" else None)
        if L.meta == "points":
            return TupleV([atom("px", L, idx), atom("py", L, idx, nullable=True)])
        if L.meta == "nums":
            return atom("elem", L, idx)
        if L.meta == "nnums":
            return atom("elem", L, idx, nullable=True)
        if L.meta == "unknown":
            return UnknownV("element of a loop list")
        return atom("elem", L, idx, kind="obj")

    def as_segs(self, st, v, node):
        """list of (state, segments | ExcV)"""
        v = self.res(st, v)
        if isinstance(v, OpM) and v.name == "__dict__" and isinstance(v.recv, Ref):
            return [(st, tuple(("e", Const(k)) for k in self.rec(st, v.recv).f))]
        if isinstance(v, TupleV):
            return [(st, tuple(("e", x) for x in v.items))]
        if isinstance(v, SeqV):
            return [(st, tuple(("e", x) for x in v.vals))]
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Lst):
                if r.kind == "iter":
                    self.mut(st, v).segs = ()
                return [(st, r.segs)]
            if isinstance(r, Gen):
                return self.drain(st, v, node)
            if isinstance(r, Dct):
                if r.open:
                    return [(st, (("s", fresh("keys", kind="list", meta="unknown")),))]
                return [(st, tuple(("e", x) for x in r.d))]
            if isinstance(r, Obj):
                k, mem = self.p.lookup(r.cls, "__iter__")
                if mem is not None:
                    out = []
                    for s, x in self.call_method(st, v, "__iter__", [], {}, node):
                        out += [(s, x)] if isinstance(x, ExcV) else self.as_segs(s, x, node)
                    return out
                k, mem = self.p.lookup(r.cls, "__getitem__")
                if mem is not None:
                    out = []
                    for s, n in self.call(st, ExtV("len"), [v], {}, node):
                        if isinstance(n, Const):
                            for s2, vs in self._items(s, v, n.v, node):
                                out.append((s2, vs if isinstance(vs, ExcV) else tuple(("e", x) for x in vs)))
                        else:
                            out.append((s, self.exc(s, "TypeError", node, "not iterable")[0][1]))
                    return out
                return self.exc(st, "TypeError", node, "%s is not iterable" % r.cls.qualname)
        if isinstance(v, Const) and isinstance(v.v, (str,)):
            return [(st, tuple(("e", Const(c)) for c in v.v))]
        if self.is_ival(v):
            out = []
            for s, p in self.ival_parts(st, v):
                out.append((s, () if p is None else (("e", p[0]), ("e", p[1]))))
            return out
        if isinstance(v, Atom):
            if v.nullable and st.facts.null(v) is not False:
                out = []
                for s, x in self.denull(st, v):
                    out += self.as_segs(s, x, node)
                return out
            if v.kind == "list":
                return [(st, (("s", v),))]
            if v.kind == "obj":
                return [(st, (("s", atom("iter", v, kind="list")),))]
        if isinstance(v, UnknownV):
            return [(st, (("s", fresh("unknown", kind="list", meta="unknown")),))]
        if isinstance(v, ClassV) and self.is_enum(v.info):
            cur = [(st, ())]
            for name, mem in v.info.members.items():
                if mem[0] == "value":
                    cur = [(s2, acc + (("e", o),)) for s, acc in cur for s2, o in self.enum_member(s, v.info, name, mem[1], node)]
            return cur
        return self.exc(st, "TypeError", node, "%s is not iterable" % show(v))

    def _items(self, st, v, n, node):
        cur = [(st, [])]
        out = []
        for i in range(n):
            nxt = []
            for s, acc in cur:
                for s2, x in self.getitem(s, v, Const(i), node):
                    if isinstance(x, ExcV):
                        out.append((s2, x))
                    else:
                        nxt.append((s2, acc + [x]))
            cur = nxt
        return out + cur

    def known_vals(self, st, v, node):
        """list of (state, [values] | ExcV | None when the length is unknown)"""
        out = []
        for s, segs in self.as_segs(st, v, node):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out.append((s, [x for _, x in segs]))
            else:
                out.append((s, None))
        return out

    def getitem(self, st, o, k, node):
        o = self.res(st, o)
        if isinstance(o, OpM) and o.name == "__dict__":
            kk = self.res(st, k)
            f = self.rec(st, o.recv).f if isinstance(o.recv, Ref) else None
            if isinstance(kk, Const) and f is not None:
                return [(st, self.res(st, f[kk.v]))] if kk.v in f else self.exc(st, "KeyError", node, str(kk.v))
            return [(st, UnknownV("__dict__"))]
        if isinstance(o, Atom) and o.nullable and st.facts.null(o) is not False:
            out = []
            for s, v in self.denull(st, o):
                out += self.getitem(s, v, k, node)
            return out
        if isinstance(o, Const) and o.v is None:
            return self.exc(st, "TypeError", node, "None is not subscriptable")
        if isinstance(o, Ref) and isinstance(self.rec(st, o), Dct):
            r = self.rec(st, o)
            kk = self.key(st, k)
            if kk in r.d:
                return [(st, self.res(st, r.d[kk]))]
            if r.open:
                return [(st, UnknownV("mapping"))]
            out = []
            for s, q in self.dict_find(st, r, kk):
                if isinstance(q, UnknownV):
                    out.append((s, q))
                elif q is not None:
                    out.append((s, self.res(s, self.rec(s, o).d[q])))
                elif r.default is not None:
                    for s2, v in self.call(s, r.default, [], {}, node):
                        if not isinstance(v, ExcV):
                            self.mut(s2, o).d[kk] = v
                        out.append((s2, v))
                else:
                    out += self.exc(s, "KeyError", node, show(kk))
            return out
        if isinstance(o, Ref) and isinstance(self.rec(st, o), Obj):
            return self.call_method(st, o, "__getitem__", [k], {}, node)
        if self.is_ival(o):
            out = []
            for s, b in self.eq(st, k, Const(0), node):
                out += self.ival_attr(s, o, "start" if b is True else "end", node)
            return out
        if isinstance(o, UnknownV) or isinstance(k, UnknownV):
            return [(st, UnknownV("item of unknown"))]
        if isinstance(o, Const) and isinstance(o.v, str):
            k = self.res(st, k)
            if isinstance(k, Const):
                try:
                    return [(st, Const(o.v[k.v]))]
                except IndexError:
                    return self.exc(st, "IndexError", node)
            return [(st, UnknownV("char"))]
        if isinstance(o, Atom) and o.kind in ("obj", "func", "str"):
            return [(st, atom("item", o, self.key(st, k), kind="obj"))]
        if not self.is_listish(st, o):
            return self.exc(st, "TypeError", node, "%s is not subscriptable" % show(o))
        out = []
        if isinstance(o, NdV) and isinstance(self.res(st, k), TupleV):
            return self.nd_item(st, o, self.res(st, k), node)
        for s, kk in self.denull(st, k):
            if not num(kk):
                if isinstance(kk, Atom) and kk.kind == "obj":
                    out.append((s, atom("item", self.key(s, o), kk, kind="obj")))
                    continue
                out += self.exc(s, "TypeError", node, "bad index %s" % show(kk))
                continue
            out += self._index(s, o, self.nb(kk), node)
        return out

    def _index(self, st, o, k, node):
        out = []
        for s, i in self.locate(st, o, k, node):
            if isinstance(i, ExcV) or isinstance(i, UnknownV):
                out.append((s, i))
            elif i[0] == "e":
                out.append((s, self.res(s, i[2])))
            else:
                out.append((s, self.elem(s, i[1], i[2])))
        return out

    def locate(self, st, o, k, node):
        """resolve an index: (state, ('e', position, value) | ('s', list, index) | ExcV)"""
        segs = self.as_segs(st, o, node)[0][1]
        k = self.fn(st, k)
        if isinstance(k, Const) and isinstance(k.v, float):
            return self.exc(st, "TypeError", node, "bad index")
        if all(q == "e" for q, _ in segs):
            n = len(segs)
            if isinstance(k, Const):
                i = k.v
                if isinstance(i, Fraction):
                    return self.exc(st, "TypeError", node, "bad index")
                if -n <= i < n:
                    i %= n
                    return [(st, ("e", i, segs[i][1]))]
                return self.exc(st, "IndexError", node, "index %s of %d" % (i, n))
            out = []
            cur = [st]
            for i in range(n):
                nxt = []
                for s in cur:
                    for s2, e in self.split_cmp(s, r_add(k, Const(i), -1), "="):
                        if e:
                            out.append((s2, ("e", i, segs[i][1])))
                        else:
                            nxt.append(s2)
                cur = nxt
            for i in range(1, n + 1):
                nxt = []
                for s in cur:
                    for s2, e in self.split_cmp(s, r_add(k, Const(i)), "="):
                        if e:
                            out.append((s2, ("e", n - i, segs[n - i][1])))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                out += self.exc(s, "IndexError", node, "index %s of %d" % (show(k), n))
            return out
        # unknown length
        if isinstance(k, Const) and k.v >= 0:
            i = k.v
            for q, x in segs:
                if q == "e":
                    if i == 0:
                        return [(st, ("e", None, x))]
                    i -= 1
                else:
                    break
            if segs.index((q, x)) == len(segs) - 1 and q == "s":
                out = []
                for s, ok in self.split_cmp(st, r_add(Const(i), self.seg_len(x), -1), "<"):
                    out += [(s, ("s", x, Const(i)))] if ok else self.exc(s, "IndexError", node, "index")
                return out
        if isinstance(k, Const) and k.v < 0:
            i = -k.v
            for q, x in reversed(segs):
                if q == "e":
                    i -= 1
                    if i == 0:
                        return [(st, ("e", None, x))]
                else:
                    break
            if q == "s" and len(segs) == 1:
                out = []
                for s, ok in self.split_cmp(st, r_add(Const(i), self.seg_len(x), -1), "<="):
                    out += [(s, ("s", x, r_add(self.seg_len(x), Const(i), -1)))] if ok else self.exc(s, "IndexError", node, "index")
                return out
        if len(segs) == 1:
            x = segs[0][1]
            return [(st, ("s", x, k))]
        return [(st, UnknownV("index into a sequence of unknown length"))]

    def slice(self, st, o, lo, hi, step, node):
        o = self.res(st, o)
        if isinstance(o, Const) and isinstance(o.v, str):
            if all(isinstance(x, Const) for x in (lo, hi, step)):
                return [(st, Const(o.v[lo.v:hi.v:step.v]))]
            return [(st, UnknownV("substring"))]
        if isinstance(o, UnknownV):
            return [(st, o)]
        if isinstance(o, Atom) and o.kind in ("obj", "str"):
            return [(st, atom("slice", o, self.key(st, lo), self.key(st, hi), kind=o.kind))]
        out = []
        for s, vs in self.known_vals(st, o, node):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            kind = "tuple" if isinstance(o, TupleV) else "list"
            if vs is None:
                if lo in (NONE, Const(0)) and hi == NONE and step == NONE:
                    out.append((s, self.new(s, Lst(self.as_segs(s, o, node)[0][1]), "list")))
                else:
                    out.append((s, self.new(s, Lst([("s", atom("slice", self.key(s, o), self.key(s, lo), self.key(s, hi), kind="list"))]), "list")))
                continue
            for s2, ij in self.bounds(s, lo, hi, len(vs), node):
                if isinstance(ij, ExcV):
                    out.append((s2, ij))
                    continue
                if step != NONE:
                    if not isinstance(step, Const):
                        out.append((s2, UnknownV("slice step")))
                        continue
                    if step.v < 0 and lo == NONE and hi == NONE:
                        sub = vs[::step.v]
                    else:
                        sub = vs[ij[0]:ij[1]:step.v]
                else:
                    sub = vs[ij[0]:ij[1]]
                out.append((s2, TupleV(sub) if kind == "tuple" else self.newlist(s2, sub)))
        return out

    def bounds(self, st, lo, hi, n, node):
        """concrete slice bounds"""
        out = []
        for s, i in self._bound(st, lo, n, 0, node):
            if isinstance(i, ExcV):
                out.append((s, i))
                continue
            for s2, j in self._bound(s, hi, n, n, node):
                out.append((s2, j if isinstance(j, ExcV) else (i, j)))
        return out

    def _bound(self, st, v, n, default, node):
        out = []
        for s, x in self.denull(st, v):
            x = self.nb(x)
            if isinstance(x, Const):
                if x.v is None:
                    out.append((s, default))
                elif isinstance(x.v, int):
                    i = x.v
                    out.append((s, max(0, n + i) if i < 0 else min(i, n)))
                else:
                    out += self.exc(s, "TypeError", node, "slice index")
                continue
            if not num(x):
                out += self.exc(s, "TypeError", node, "slice index")
                continue
            cur = [s]
            # non-negative
            for s1, neg in self.split_cmp(s, x, "<"):
                if not neg:
                    cur = [s1]
                    for i in range(n):
                        nxt = []
                        for s2 in cur:
                            for s3, e in self.split_cmp(s2, r_add(x, Const(i), -1), "="):
                                if e:
                                    out.append((s3, i))
                                else:
                                    nxt.append(s3)
                        cur = nxt
                    out += [(s2, n) for s2 in cur]
                else:
                    cur = [s1]
                    for i in range(1, n):
                        nxt = []
                        for s2 in cur:
                            for s3, e in self.split_cmp(s2, r_add(x, Const(i)), "="):
                                if e:
                                    out.append((s3, n - i))
                                else:
                                    nxt.append(s3)
                        cur = nxt
                    out += [(s2, 0) for s2 in cur]
        return out

    def setitem(self, st, o, k, v, node):
        o = self.res(st, o)
        if isinstance(o, OpM) and o.name == "__dict__":
            kk = self.res(st, k)
            if isinstance(kk, Const) and isinstance(o.recv, Ref):
                self.mut(st, o.recv).f[kk.v] = v
            else:
                self.taint(st, "write into a namespace")
            return [(st, None)]
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Dct):
                kk = self.key(st, k)
                if kk in r.d:
                    self.mut(st, o).d[kk] = v
                    return [(st, None)]
                out = []
                for s, q in self.dict_find(st, r, kk):
                    if isinstance(q, UnknownV):
                        self.taint(s, "an entry of a mapping under an unknown key")
                        self.mut(s, o).open = True
                    else:
                        self.mut(s, o).d[kk if q is None else q] = v
                    out.append((s, None))
                return out
            if isinstance(r, Obj):
                return [(s, w if isinstance(w, ExcV) else None) for s, w in self.call_method(st, o, "__setitem__", [k, v], {}, node)]
            if isinstance(r, Lst) and r.kind == "list":
                out = []
                for s, i in self.locate(st, o, self.nb(self.res(st, k)), node):
                    if isinstance(i, ExcV):
                        out.append((s, i))
                    elif isinstance(i, tuple) and i[0] == "e" and i[1] is not None:
                        q = self.mut(s, o)
                        segs = list(q.segs)
                        segs[i[1]] = ("e", v)
                        q.segs = tuple(segs)
                        self.on_write(s, o, "[]", v, node)
                        out.append((s, None))
                    else:
                        self.taint(s, "write into a sequence of unknown length")
                        out.append((s, None))
                return out
        if isinstance(o, UnknownV) or isinstance(o, Atom):
            self.taint(st, "write into an unknown value")
            return [(st, None)]
        return self.exc(st, "TypeError", node, "item assignment")

    def delitem(self, st, o, k, node):
        o = self.res(st, o)
        if isinstance(o, OpM) and o.name == "__dict__":
            kk = self.res(st, k)
            if isinstance(kk, Const) and isinstance(o.recv, Ref):
                if kk.v not in self.rec(st, o.recv).f:
                    return self.exc(st, "KeyError", node)
                self.mut(st, o.recv).f.pop(kk.v)
            else:
                self.taint(st, "write into a namespace")
            return [(st, None)]
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Dct):
                kk = self.key(st, k)
                out = []
                for s, q in self.dict_find(st, r, kk):
                    if isinstance(q, UnknownV):
                        self.taint(s, "an entry of a mapping under an unknown key")
                        out.append((s, None))
                    elif q is not None:
                        self.mut(s, o).d.pop(q)
                        out.append((s, None))
                    else:
                        out += self.exc(s, "KeyError", node)
                return out
            if isinstance(r, Lst) and r.kind == "list":
                out = []
                for s, i in self.locate(st, o, self.nb(self.res(st, k)), node):
                    if isinstance(i, ExcV):
                        out.append((s, i))
                    elif isinstance(i, tuple) and i[0] == "e" and i[1] is not None:
                        q = self.mut(s, o)
                        segs = list(q.segs)
                        del segs[i[1]]
                        q.segs = tuple(segs)
                        out.append((s, None))
                    else:
                        self.taint(s, "delete from a sequence of unknown length")
                        out.append((s, None))
                return out
        if isinstance(o, (UnknownV, Atom)):
            self.taint(st, "delete from an unknown value")
            return [(st, None)]
        return self.exc(st, "TypeError", node, "item deletion")

    def setslice(self, st, o, lo, hi, v, node):
        o = self.res(st, o)
        if not (isinstance(o, Ref) and isinstance(self.rec(st, o), Lst) and self.rec(st, o).known()):
            self.taint(st, "slice assignment")
            return [(st, None)]
        out = []
        for s, vs in self.known_vals(st, v, node):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            if vs is None:
                self.taint(s, "slice assignment")
                out.append((s, None))
                continue
            n = len(self.rec(s, o).segs)
            for s2, ij in self.bounds(s, lo, hi, n, node):
                if isinstance(ij, ExcV):
                    out.append((s2, ij))
                    continue
                r = self.mut(s2, o)
                segs = list(r.segs)
                segs[ij[0]:max(ij)] = [("e", x) for x in vs]
                r.segs = tuple(segs)
                out.append((s2, None))
        return out

    def make_set(self, st, vals, node):
        cur = [(st, [])]
        out = []
        for v in vals:
            nxt = []
            for s, acc in cur:
                todo = [(s, 0)]
                while todo:
                    s2, i = todo.pop()
                    if i == len(acc):
                        nxt.append((s2, acc + [v]))
                        continue
                    for s3, e in self.eq(s2, acc[i], v, node):
                        if e is True:
                            nxt.append((s3, acc))
                        elif e is False:
                            todo.append((s3, i + 1))
                        else:
                            out.append((s3, e))
            cur = nxt
        return out + [(s, self.newlist(s, acc, "set")) for s, acc in cur]

    # ---------------------------------------------------------- intervals
    def is_ival(self, v):
        return isinstance(v, IvalV) or (isinstance(v, Atom) and v.kind == "interval")

    def ival_empty(self, st, v):
        if isinstance(v, IvalV):
            return [(st, v.start == NONE)]
        if v.op == "inter" and any(st.facts.boolean(atom("empty", a, kind="bool")) for a in v.args):
            return [(st, True)]
        if v.op == "union":
            if any(st.facts.boolean(atom("empty", a, kind="bool")) is False for a in v.args):
                return [(st, False)]
        return self.split_bool(st, atom("empty", v, kind="bool"))

    def ival_parts(self, st, v):
        """list of (state, None | (start, end, start_open, end_open))"""
        if isinstance(v, IvalV):
            return [(st, None if v.start == NONE else v._t())]
        out = []
        for s, e in self.ival_empty(st, v):
            if e:
                out.append((s, None))
                continue
            a = NINF if s.facts.boolean(atom("neg_inf", v, kind="bool")) else atom("start", v)
            b = INF if s.facts.boolean(atom("pos_inf", v, kind="bool")) else atom("end", v)
            f = s.facts
            if isinstance(a, Atom) and isinstance(b, Atom):
                f = f.with_cmp(r_add(a, b, -1), "<=")
                if f is None:
                    continue
            s.facts = f
            so = TRUE if a is NINF else self.res(s, atom("start_open", v, kind="bool"))
            eo = TRUE if b is INF else self.res(s, atom("end_open", v, kind="bool"))
            out.append((s, (a, b, so, eo)))
        return out

    def ival_make(self, st, a, b, so, eo, node):
        out = []
        for s, x in self.denull(st, a):
            for s2, y in self.denull(s, b):
                x = self.res(s2, x)
                if isinstance(x, UnknownV) or isinstance(y, UnknownV):
                    out.append((s2, UnknownV("interval")))
                    continue
                if x == NONE and y == NONE:
                    out.append((s2, EMPTY))
                    continue
                if x == NONE:
                    x = NINF
                if y == NONE:
                    y = INF
                if not num(x) or not num(y):
                    if isinstance(x, Atom) or isinstance(y, Atom):
                        out.append((s2, UnknownV("interval of non-numbers")))
                        continue
                    out += self.exc(s2, "TypeError", node, "interval bounds")
                    continue
                for s3, p in self.flag(s2, so):
                    for s4, q in self.flag(s3, eo):
                        out += self._ival_make(s4, x, y, p, q)
        return out

    def flag(self, st, v):
        v = self.res(st, v)
        if isinstance(v, Const):
            return [(st, TRUE if v.v else FALSE)]
        if isinstance(v, Atom) and v.kind == "bool":
            return [(st, v)]
        out = []
        for s, b in self.truth(st, v):
            out.append((s, Const(b)))
        return out

    def _ival_make(self, st, a, b, so, eo):
        a, b = self.fn(st, a), self.fn(st, b)
        out = []
        if so == FALSE and eo == FALSE:
            ss = [(st, None)]
        else:
            ss = self.eq(st, a, b, None)
        for s, e in ss:
            p, q = self.res(s, so), self.res(s, eo)
            if e is True:
                for s2, o in self._any(s, [p, q]):
                    if o:
                        out.append((s2, EMPTY))
                    else:
                        out.append((s2, IvalV(a, b, FALSE, FALSE)))
                continue
            if isinf_const(a) and a != b:
                p = TRUE
            if isinf_const(b) and a != b:
                q = TRUE
            out.append((s, IvalV(a, b, p, q)))
        return out

    def _any(self, st, flags):
        cur = [st]
        out = []
        for f in flags:
            nxt = []
            for s in cur:
                f2 = self.res(s, f)
                for s2, b in ([(s, bool(f2.v))] if isinstance(f2, Const) else self.split_bool(s, f2)):
                    if b:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def ival_neg_inf(self, st, v):
        if isinstance(v, IvalV):
            if v.start == NONE:
                return [(st, False)]
            return [(st, isinf_const(v.start) and v.start != v.end)]
        out = []
        for s, e in self.ival_empty(st, v):
            out += [(s, False)] if e else self.split_bool(s, atom("neg_inf", v, kind="bool"))
        return out

    def ival_pos_inf(self, st, v):
        if isinstance(v, IvalV):
            if v.start == NONE:
                return [(st, False)]
            return [(st, isinf_const(v.end) and v.start != v.end)]
        out = []
        for s, e in self.ival_empty(st, v):
            out += [(s, False)] if e else self.split_bool(s, atom("pos_inf", v, kind="bool"))
        return out

    def ival_contains(self, st, v, x, es=True, ee=True, node=None):
        out = []
        for s, y in self.denull(st, x):
            if y == NONE:
                out.append((s, False))
            elif isinstance(y, UnknownV):
                out.append((s, y))
            elif not num(y):
                out += self.exc(s, "TypeError", node, "contains(%s)" % show(y))
            else:
                out += self._contains(s, v, self.nb(y), es, ee)
        return out

    def _contains(self, st, v, x, es, ee):
        if isinstance(v, IvalV):
            if v.start == NONE:
                return [(st, False)]
            return self._contains_parts(st, v._t(), x, es, ee)
        if isinstance(v, Atom) and v.op == "inter" and es and ee:
            cur = [st]
            out = []
            for a in v.args:
                nxt = []
                for s in cur:
                    for s2, b in self._contains(s, a, x, True, True):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        if isinf_const(x):
            out = []
            for s, p in self.ival_parts(st, v):
                if p is None:
                    out.append((s, False))
                    continue
                out += (self.ival_neg_inf if x.v < 0 else self.ival_pos_inf)(s, v)
            return out
        x = self.fn(st, x)
        full = atom("contains", v, x, kind="bool")
        f = st.facts
        if f.boolean(atom("empty", v, kind="bool")) is True:
            return [(st, False)]
        if es and ee:
            b = f.boolean(full)
            if b is not None:
                return [(st, b)]
            if v.op == "union":
                for a in v.args:
                    if isinstance(a, Atom) and f.boolean(atom("contains", a, x, kind="bool")):
                        return [(st, True)]
            # decided by comparisons
            if f.boolean(atom("empty", v, kind="bool")) is False:
                d = self._contains_decided(st, v, x)
                if d is not None:
                    return [(st, d)]
            out = []
            t = f.with_bool(full, True)
            if t is not None:
                t = self._inside(t, v, x, True, True)
            if t is not None:
                s = st.fork()
                s.facts = t
                out.append((s, True))
            g = f.with_bool(full, False)
            if g is not None:
                s = st.fork()
                s.facts = g
                out.append((s, False))
            self.n_splits += 1
            return out
        if f.boolean(full) is True:
            return [(st, True)]
        out = []
        for s, p in self.ival_parts(st, v):
            if p is None:
                out.append((s, False))
            else:
                for s2, b in self._contains_parts(s, p, x, es, ee):
                    out.append((s2, b))
        return out

    def _contains_decided(self, st, v, x):
        f = st.facts
        a, b = atom("start", v), atom("end", v)
        lo = f.cmp(r_add(x, a, -1), "<") if not f.boolean(atom("neg_inf", v, kind="bool")) else False
        if lo is True:
            return False
        hi = f.cmp(r_add(b, x, -1), "<") if not f.boolean(atom("pos_inf", v, kind="bool")) else False
        if hi is True:
            return False
        if lo is None or hi is None:
            return None
        if f.boolean(atom("neg_inf", v, kind="bool")):
            e1 = False
        else:
            e1 = f.cmp(r_add(x, a, -1), "=")
        if f.boolean(atom("pos_inf", v, kind="bool")):
            e2 = False
        else:
            e2 = f.cmp(r_add(x, b, -1), "=")
        so = f.boolean(atom("start_open", v, kind="bool"))
        eo = f.boolean(atom("end_open", v, kind="bool"))
        ok1 = True if e1 is False or so is False else (False if e1 is True and so is True else None)
        ok2 = True if e2 is False or eo is False else (False if e2 is True and eo is True else None)
        if ok1 is False or ok2 is False:
            return False
        if ok1 and ok2:
            return True
        return None

    def _inside(self, f, v, x, es, ee):
        f = f.with_bool(atom("empty", v, kind="bool"), False)
        if f is None:
            return None
        if not f.boolean(atom("neg_inf", v, kind="bool")):
            f = f.with_cmp(r_add(atom("start", v), x, -1), "<=")
            if f is None:
                return None
            if f.boolean(atom("start_open", v, kind="bool")):
                f = f.with_cmp(r_add(atom("start", v), x, -1), "<")
                if f is None:
                    return None
        if not f.boolean(atom("pos_inf", v, kind="bool")):
            f = f.with_cmp(r_add(x, atom("end", v), -1), "<=")
            if f is None:
                return None
            if f.boolean(atom("end_open", v, kind="bool")):
                f = f.with_cmp(r_add(x, atom("end", v), -1), "<")
        return f

    def consistent(self, st):
        """False when interval memberships contradict the comparisons"""
        f = st.facts
        for a, b in list(f.bools.items()):
            if a.op == "contains":
                v, x = a.args
                if not isinstance(v, Atom):
                    continue
                if f.boolean(atom("empty", v, kind="bool")) is True:
                    if b:
                        return False
                    continue
                d = self._contains_decided(st, v, x)
                if d is not None and d != b and (d is False or f.boolean(atom("empty", v, kind="bool")) is False):
                    return False
        return True

    def _contains_parts(self, st, p, x, es, ee):
        a, b, so, eo = p
        if isinf_const(x):
            if x.v < 0 and isinf_const(a) and a.v < 0 or x.v > 0 and isinf_const(b) and b.v > 0:
                return [(st, True)]
            if isinf_const(a) is False and isinf_const(b) is False:
                if (x.v < 0 and es) or (x.v > 0 and ee):
                    return [(st, False)]
        out = []
        cur = []
        # start
        lo = ast.Lt()
        if isinf_const(a):
            cur = [st]
        else:
            for s, lt in self.order_num(st, lo, x, a):
                if lt:
                    if es:
                        out.append((s, False))
                    else:
                        cur.append(s)
                    continue
                so2 = self.res(s, so)
                if so2 == FALSE or not (es or ee):
                    cur.append(s)
                    continue
                for s2, e in self._eq(s, x, a, None):
                    if not e:
                        cur.append(s2)
                        continue
                    for s3, o in self._any(s2, [so2]):
                        if o:
                            out.append((s3, False))
                        else:
                            cur.append(s3)
        if not ee:
            return out + [(s, True) for s in cur]
        if isinf_const(b):
            return out + [(s, True) for s in cur]
        for s in cur:
            for s1, gt in self.order_num(s, ast.Gt(), x, b):
                if gt:
                    out.append((s1, False))
                    continue
                eo2 = self.res(s1, eo)
                if eo2 == FALSE:
                    out.append((s1, True))
                    continue
                for s2, e in self._eq(s1, x, b, None):
                    if not e:
                        out.append((s2, True))
                        continue
                    for s3, o in self._any(s2, [eo2]):
                        out.append((s3, not o))
        return out

    def ival_superset(self, st, u, v):
        out = []
        if isinstance(u, IvalV) and u.start == NONE:
            return [(st, False)]
        if u == INFINITE:
            return [(st, True)]
        for s, e in self.ival_empty(st, u):
            if e:
                out.append((s, False))
                continue
            for s2, e2 in self.ival_empty(s, v):
                if e2:
                    out.append((s2, True))
                    continue
                if u == v:
                    out.append((s2, True))
                    continue
                if isinstance(u, Atom) and u.op == "union" and v in u.args:
                    out.append((s2, True))
                    continue
                if isinstance(v, Atom) and v.op == "inter" and u in v.args:
                    out.append((s2, True))
                    continue
                if isinstance(u, Atom) and isinstance(v, Atom):
                    out += self.split_bool(s2, atom("superset", u, v, kind="bool"))
                    continue
                for s3, p in self.ival_parts(s2, u):
                    for s4, q in self.ival_parts(s3, v):
                        out += self._superset_parts(s4, p, q)
        return out

    def _superset_parts(self, st, p, q):
        out = []
        for s, g in self.cmp3(st, p[0], q[0]):
            if g > 0:
                out.append((s, False))
                continue
            nxt = []
            if g == 0:
                for s2, o in self._any(s, [p[2]]):
                    if not o:
                        nxt.append(s2)
                        continue
                    for s3, o2 in self._any(s2, [q[2]]):
                        if o2:
                            nxt.append(s3)
                        else:
                            out.append((s3, False))
            else:
                nxt = [s]
            for s2 in nxt:
                for s3, h in self.cmp3(s2, p[1], q[1]):
                    if h < 0:
                        out.append((s3, False))
                    elif h > 0:
                        out.append((s3, True))
                    else:
                        for s4, o in self._any(s3, [p[3]]):
                            if not o:
                                out.append((s4, True))
                                continue
                            for s5, o2 in self._any(s4, [q[3]]):
                                out.append((s5, o2))
        return out

    def cmp3(self, st, a, b):
        """three-way comparison of bounds"""
        if isinf_const(a) or isinf_const(b):
            x = a.v if isinf_const(a) else 0
            y = b.v if isinf_const(b) else 0
            return [(st, (x > y) - (x < y))]
        return self.split3(st, r_add(a, b, -1))

    def ival_intersects(self, st, u, v):
        out = []
        for s, e in self.ival_empty(st, u):
            if e:
                out.append((s, False))
                continue
            for s2, e2 in self.ival_empty(s, v):
                if e2:
                    out.append((s2, False))
                elif u == INFINITE or v == INFINITE or u == v:
                    out.append((s2, True))
                elif isinstance(u, Atom) and isinstance(v, Atom):
                    if (u.op == "union" and v in u.args) or (v.op == "union" and u in v.args):
                        out.append((s2, True))
                        continue
                    a, b = sorted((u, v), key=lambda z: z.id)
                    out += self.split_bool(s2, atom("intersects", a, b, kind="bool"))
                else:
                    for s3, p in self.ival_parts(s2, u):
                        for s4, q in self.ival_parts(s3, v):
                            out += self._intersects_parts(s4, p, q)
        return out

    def _intersects_parts(self, st, p, q):
        out = []
        for s, g in self.cmp3(st, p[1], q[0]):
            if g < 0:
                out.append((s, False))
                continue
            nxt = []
            if g == 0:
                for s2, o in self._any(s, [p[3], q[2]]):
                    if o:
                        out.append((s2, False))
                    else:
                        nxt.append(s2)
            else:
                nxt = [s]
            for s2 in nxt:
                for s3, h in self.cmp3(s2, q[1], p[0]):
                    if h < 0:
                        out.append((s3, False))
                    elif h > 0:
                        out.append((s3, True))
                    else:
                        for s4, o in self._any(s3, [q[3], p[2]]):
                            out.append((s4, not o))
        return out

    def ival_union(self, st, ivs):
        cur = [(st, [])]
        for v in ivs:
            nxt = []
            for s, acc in cur:
                if isinstance(v, IvalV):
                    nxt.append((s, acc + [v] if v.start != NONE else acc))
                else:
                    b = s.facts.boolean(atom("empty", v, kind="bool"))
                    if b is True:
                        nxt.append((s, acc))
                    else:
                        nxt.append((s, acc + [v]))
            cur = nxt
        out = []
        for s, acc in cur:
            flat = []
            for v in acc:
                for w in (v.args if isinstance(v, Atom) and v.op == "union" else [v]):
                    if w not in flat:
                        flat.append(w)
            if any(v == INFINITE for v in flat):
                out.append((s, INFINITE))
            elif not flat:
                out.append((s, EMPTY))
            elif len(flat) == 1:
                out.append((s, flat[0]))
            elif all(isinstance(v, Atom) for v in flat):
                flat.sort(key=lambda z: z.id)
                out.append((s, atom("union", *flat, kind="interval")))
            else:
                out += self._hull(s, flat)
        return out

    def _hull(self, st, ivs):
        cur = [(st, None)]
        for v in ivs:
            nxt = []
            for s, acc in cur:
                for s2, p in self.ival_parts(s, v):
                    if p is None:
                        nxt.append((s2, acc))
                    elif acc is None:
                        nxt.append((s2, p))
                    else:
                        for s3, g in self.cmp3(s2, acc[0], p[0]):
                            for s4, h in self.cmp3(s3, acc[1], p[1]):
                                if g == 0:
                                    lo = [(s4, acc[0], x) for s4, x in self._both(s4, acc[2], p[2])]
                                else:
                                    lo = [(s4,) + ((acc[0], acc[2]) if g < 0 else (p[0], p[2]))]
                                for s5, a, so in lo:
                                    if h == 0:
                                        hi = [(s6, acc[1], x) for s6, x in self._both(s5, acc[3], p[3])]
                                    else:
                                        hi = [(s5,) + ((acc[1], acc[3]) if h > 0 else (p[1], p[3]))]
                                    for s6, b, eo in hi:
                                        nxt.append((s6, (a, b, so, eo)))
            cur = nxt
        return [(s, EMPTY if p is None else IvalV(*p)) for s, p in cur]

    def _both(self, st, x, y):
        """open only when both are open"""
        x, y = self.res(st, x), self.res(st, y)
        if x == FALSE or y == FALSE:
            return [(st, FALSE)]
        if x == TRUE:
            return [(st, y)]
        if y == TRUE or x == y:
            return [(st, x)]
        out = []
        for s, b in self.split_bool(st, x):
            out.append((s, y if b else FALSE))
        return out

    def _either(self, st, x, y):
        x, y = self.res(st, x), self.res(st, y)
        if x == TRUE or y == TRUE:
            return [(st, TRUE)]
        if x == FALSE:
            return [(st, y)]
        if y == FALSE or x == y:
            return [(st, x)]
        return [(s, TRUE if b else y) for s, b in self.split_bool(st, x)]

    def ival_inter(self, st, ivs):
        flat = []
        for v in ivs:
            for w in (v.args if isinstance(v, Atom) and v.op == "inter" else [v]):
                if w not in flat:
                    flat.append(w)
        if not flat:
            return [(st, EMPTY)]
        if any(isinstance(v, IvalV) and v.start == NONE for v in flat):
            return [(st, EMPTY)]
        if any(isinstance(v, Atom) and st.facts.boolean(atom("empty", v, kind="bool")) for v in flat):
            return [(st, EMPTY)]
        if len(flat) > 1:
            flat = [v for v in flat if v != INFINITE] or [INFINITE]
        if len(flat) == 1:
            return [(st, flat[0])]
        if all(isinstance(v, Atom) for v in flat):
            flat.sort(key=lambda z: z.id)
            return [(st, atom("inter", *flat, kind="interval"))]
        cur = [(st, None)]
        out = []
        for v in flat:
            nxt = []
            for s, acc in cur:
                for s2, p in self.ival_parts(s, v):
                    if p is None:
                        out.append((s2, EMPTY))
                    elif acc is None:
                        nxt.append((s2, p))
                    else:
                        for s3, g in self.cmp3(s2, acc[0], p[0]):
                            for s4, h in self.cmp3(s3, acc[1], p[1]):
                                if g == 0:
                                    lo = [(q, acc[0], x) for q, x in self._either(s4, acc[2], p[2])]
                                else:
                                    lo = [(s4,) + ((acc[0], acc[2]) if g > 0 else (p[0], p[2]))]
                                for s5, a, so in lo:
                                    if h == 0:
                                        hi = [(q, acc[1], x) for q, x in self._either(s5, acc[3], p[3])]
                                    else:
                                        hi = [(s5,) + ((acc[1], acc[3]) if h < 0 else (p[1], p[3]))]
                                    for s6, b, eo in hi:
                                        nxt.append((s6, (a, b, so, eo)))
            cur = nxt
        for s, p in cur:
            for s2, g in self.cmp3(s, p[0], p[1]):
                if g > 0:
                    out.append((s2, EMPTY))
                elif g == 0:
                    out += self._ival_make(s2, p[0], p[1], p[2], p[3])
                else:
                    out.append((s2, IvalV(*p)))
        return out

    def ival_eq(self, st, u, v):
        if u == v:
            return [(st, True)]
        if isinstance(u, IvalV) and isinstance(v, IvalV) and (u.start == NONE or v.start == NONE):
            return [(st, u.start == v.start)]
        out = []
        for s, e in self.ival_empty(st, u):
            for s2, e2 in self.ival_empty(s, v):
                if e or e2:
                    out.append((s2, e and e2))
                    continue
                for s3, p in self.ival_parts(s2, u):
                    for s4, q in self.ival_parts(s3, v):
                        if p is None or q is None:
                            out.append((s4, p is None and q is None))
                            continue
                        out += self._eq_items(s4, list(p), list(q), None)
        return out

    def ival_order(self, st, op, a, b, node):
        out = []
        for s, x in self.ival_parse(st, a, node):
            if isinstance(x, ExcV):
                out.append((s, x))
                continue
            for s2, y in self.ival_parse(s, b, node):
                if isinstance(y, ExcV):
                    out.append((s2, y))
                    continue
                out += self._ival_order(s2, op, x, y)
        return out

    def _ival_order(self, st, op, u, v):
        out = []
        for s, p in self.ival_parts(st, u):
            if p is None:
                out.append((s, False))
                continue
            for s2, q in self.ival_parts(s, v):
                if q is None:
                    out.append((s2, True))
                    continue
                if isinstance(op, ast.Lt):
                    for s3, g in self.cmp3(s2, p[1], q[0]):
                        out += [(s3, g < 0)] if g else self._any(s3, [p[3], q[2]])
                elif isinstance(op, ast.LtE):
                    for s3, g in self.cmp3(s2, p[1], q[1]):
                        if g:
                            out.append((s3, g < 0))
                        else:
                            for s4, o in self._any(s3, [p[3]]):
                                out += [(s4, True)] if o else [(s5, not o2) for s5, o2 in self._any(s4, [q[3]])]
                elif isinstance(op, ast.Gt):
                    for s3, g in self.cmp3(s2, p[0], q[1]):
                        if g > 0:
                            out.append((s3, True))
                            continue
                        for s4, h in self.cmp3(s3, p[1], q[0]):
                            out += [(s4, False)] if h else self._any(s4, [p[2], q[3]])
                else:
                    for s3, g in self.cmp3(s2, p[0], q[0]):
                        if g:
                            out.append((s3, g > 0))
                        else:
                            for s4, o in self._any(s3, [p[2]]):
                                out += [(s4, True)] if o else [(s5, not o2) for s5, o2 in self._any(s4, [q[2]])]
        return out

    def ival_parse(self, st, d, node, default_inf=FALSE):
        out = []
        for s, v in self.denull(st, d):
            if v == NONE:
                for s2, b in self.truth(s, default_inf):
                    if b:
                        out.append((s2, INFINITE))
                    else:
                        out += self.exc(s2, "Exception", node, "Unable to parse interval", explicit=True)
            elif self.is_ival(v):
                out.append((s, v))
            elif num(v):
                out += self.ival_make(s, self.nb(v), self.nb(v), FALSE, FALSE, node)
            elif isinstance(v, UnknownV):
                out.append((s, v))
            elif self.is_listish(s, v):
                for s2, vs in self.known_vals(s, v, node):
                    if vs is None:
                        out.append((s2, UnknownV("interval")))
                    elif len(vs) == 0:
                        out.append((s2, EMPTY))
                    elif len(vs) == 2:
                        out += self.ival_make(s2, vs[0], vs[1], FALSE, FALSE, node)
                    else:
                        out += self.exc(s2, "Exception", node, "Unable to parse interval", explicit=True)
            else:
                out += self.exc(s, "Exception", node, "Unable to parse interval", explicit=True)
        return out

    def ival_attr(self, st, v, name, node):
        if name in ("start", "end"):
            out = []
            for s, p in self.ival_parts(st, v):
                out.append((s, NONE if p is None else p[0 if name == "start" else 1]))
            return out
        if name in ("start_open", "end_open"):
            if isinstance(v, IvalV):
                return [(st, v.so if name == "start_open" else v.eo)]
            out = []
            for s, p in self.ival_parts(st, v):
                out.append((s, TRUE if p is None else p[2 if name == "start_open" else 3]))
            return out
        if name == "is_empty":
            if isinstance(v, Atom) and v.op not in ("union", "inter"):
                return [(st, self.res(st, atom("empty", v, kind="bool")))]
            return [(s, Const(b)) for s, b in self.ival_empty(st, v)]
        if name == "is_negative_infinite":
            return [(s, Const(b)) for s, b in self.ival_neg_inf(st, v)]
        if name == "is_positive_infinite":
            return [(s, Const(b)) for s, b in self.ival_pos_inf(st, v)]
        if name in ("is_infinite", "is_finite"):
            out = []
            for s, a in self.ival_neg_inf(st, v):
                for s2, b in self.ival_pos_inf(s, v):
                    out.append((s2, Const((a and b) if name == "is_infinite" else (not a and not b))))
            return out
        if name == "is_point":
            out = []
            for s, p in self.ival_parts(st, v):
                if p is None:
                    out.append((s, FALSE))
                else:
                    out += [(s2, Const(b)) for s2, b in self.eq(s, p[0], p[1], node)]
            return out
        if name == "length":
            out = []
            for s, p in self.ival_parts(st, v):
                out += [(s, Const(0))] if p is None else self.numop(s, ast.Sub(), p[1], p[0], node)
            return out
        if name == "middle":
            out = []
            for s, p in self.ival_parts(st, v):
                if p is None:
                    out += self.exc(s, "TypeError", node, "middle of an empty interval")
                else:
                    for s2, t in self.numop(s, ast.Add(), p[1], p[0], node):
                        out += self.numop(s2, ast.Div(), t, Const(2), node)
            return out
        return [(st, OpM(v, name))]

    def ival_method(self, st, v, name, args, kw, node):
        def arg(i, key, default=None):
            if i < len(args):
                return args[i]
            return kw.get(key, default)
        if name == "contains":
            es = arg(1, "enforce_start", TRUE)
            ee = arg(2, "enforce_end", TRUE)
            x = arg(0, "x")
            out = []
            for s, a in self.truth(st, es):
                for s2, b in self.truth(s, ee):
                    out += [(s3, Const(r) if isinstance(r, bool) else r) for s3, r in self.ival_contains(s2, v, x, a, b, node)]
            return out
        if name in ("is_superset_of", "is_subset_of", "intersects", "equals"):
            out = []
            o = arg(0, "interval")
            if name == "equals" and self.res(st, o) == NONE:
                return [(st, FALSE)]
            for s, w in self.ival_parse(st, o, node):
                if isinstance(w, (ExcV, UnknownV)):
                    out.append((s, w))
                    continue
                f = {"is_superset_of": lambda: self.ival_superset(s, v, w), "is_subset_of": lambda: self.ival_superset(s, w, v),
                     "intersects": lambda: self.ival_intersects(s, v, w), "equals": lambda: self.ival_eq(s, v, w)}[name]
                out += [(s2, Const(b)) for s2, b in f()]
            return out
        if name == "copy":
            return [(st, v)]
        if name in ("get_gte", "extended_to_positive_infinity", "get_lte", "extended_to_negative_infinity",
                    "get_gt", "rest_to_positive_infinity", "get_lt", "rest_to_negative_infinity"):
            out = []
            for s, p in self.ival_parts(st, v):
                if p is None:
                    out.append((s, EMPTY))
                    continue
                a, b, so, eo = p
                if name in ("get_gte", "extended_to_positive_infinity"):
                    out += self.ival_make(s, a, INF, so, FALSE, node)
                elif name in ("get_lte", "extended_to_negative_infinity"):
                    out += self.ival_make(s, NINF, b, FALSE, eo, node)
                elif name in ("get_gt", "rest_to_positive_infinity"):
                    out += [x for s2, f in self._not(s, eo) for x in self.ival_make(s2, b, INF, f, FALSE, node)]
                else:
                    out += [x for s2, f in self._not(s, so) for x in self.ival_make(s2, NINF, a, FALSE, f, node)]
            return out
        if name in ("as_closed", "as_open", "as_closed_open", "as_open_closed"):
            fl = {"as_closed": (FALSE, FALSE), "as_open": (TRUE, TRUE), "as_closed_open": (FALSE, TRUE), "as_open_closed": (TRUE, FALSE)}[name]
            out = []
            for s, p in self.ival_parts(st, v):
                out += [(s, EMPTY)] if p is None else self.ival_make(s, p[0], p[1], fl[0], fl[1], node)
            return out
        if name == "offset":
            out = []
            for s, p in self.ival_parts(st, v):
                if p is None:
                    out += self.exc(s, "TypeError", node, "offset of an empty interval")
                    continue
                for s2, a in self.binop(s, ast.Add(), p[0], args[0], node):
                    for s3, b in self.binop(s2, ast.Add(), p[1], args[0], node):
                        out += self.ival_make(s3, a, b, p[2], p[3], node)
            return out
        if name == "partition":
            return self.ival_partition(st, v, arg(0, "xs"), node)
        return [(st, UnknownV("Interval.%s" % name))]

    def _not(self, st, f):
        f = self.res(st, f)
        if isinstance(f, Const):
            return [(st, Const(not f.v))]
        return [(s, Const(not b)) for s, b in self.split_bool(st, f)]

    def ival_partition(self, st, v, xs, node):
        out = []
        for s, vs in self.known_vals(st, xs, node):
            if vs is None:
                out.append((s, UnknownV("partition")))
                continue
            cur = [(s, [])]
            for x in vs:
                nxt = []
                for s2, acc in cur:
                    for s3, b in self.ival_contains(s2, v, x):
                        nxt.append((s3, acc + [x] if b is True else acc))
                cur = nxt
            for s2, inside in cur:
                for s3, p in self.ival_parts(s2, v):
                    if p is None:
                        out.append((s3, self.newlist(s3, [EMPTY])))
                        continue
                    if not inside:
                        out.append((s3, self.newlist(s3, [v])))
                        continue
                    acc = [(s3, [])]
                    pts = [(p[0], p[2])] + [(x, FALSE) for x in inside]
                    ends = [(x, TRUE) for x in inside] + [(p[1], p[3])]
                    for (a, so), (b, eo) in zip(pts, ends):
                        nxt = []
                        for s4, l in acc:
                            for s5, w in self.ival_make(s4, a, b, so, eo, node):
                                nxt.append((s5, l if w == EMPTY else l + [w]))
                        acc = nxt
                    out += [(s4, self.newlist(s4, l)) for s4, l in acc]
        return out

    def ival_static(self, st, name, args, kw, node):
        if name == "empty":
            return [(st, EMPTY)]
        if name == "infinite":
            return [(st, INFINITE)]
        if name == "parse":
            return self.ival_parse(st, args[0], node, (args[1] if len(args) > 1 else kw.get("default_inf", FALSE)))
        if name == "parse_many":
            if self.is_ival(self.res(st, args[0])):
                return [(st, self.newlist(st, [args[0]]))]
            out = []
            for s, vs in self.known_vals(st, args[0], node):
                if vs is None:
                    out.append((s, UnknownV("intervals")))
                    continue
                if isinstance(vs, ExcV):
                    out.append((s, vs))
                    continue
                cur = [(s, [])]
                for v in vs:
                    nxt = []
                    for s2, acc in cur:
                        for s3, w in self.ival_parse(s2, v, node):
                            if isinstance(w, ExcV):
                                out.append((s3, w))
                            else:
                                nxt.append((s3, acc + [w]))
                    cur = nxt
                out += [(s2, self.newlist(s2, acc)) for s2, acc in cur]
            return out
        if name in ("union", "intersection"):
            out = []
            for s, l in self.ival_static(st, "parse_many", args, kw, node):
                if isinstance(l, (ExcV, UnknownV)):
                    out.append((s, l))
                    continue
                vs = self.rec(s, l).items()
                if any(isinstance(v, UnknownV) for v in vs):
                    out.append((s, UnknownV("interval")))
                    continue
                out += self.ival_union(s, vs) if name == "union" else self.ival_inter(s, vs)
            return out
        x = args[0] if args else None
        y = args[1] if len(args) > 1 else None
        if name in ("closed", "open", "closed_open", "open_closed"):
            x = x if x is not None else kw.get("start")
            y = y if y is not None else kw.get("end")
            fl = {"closed": (FALSE, FALSE), "open": (TRUE, TRUE), "closed_open": (FALSE, TRUE), "open_closed": (TRUE, FALSE)}[name]
            return self.ival_make(st, x, y, fl[0], fl[1], node)
        if name in ("gt", "gte"):
            return self.ival_make(st, x, INF, Const(name == "gt"), TRUE, node)
        if name in ("lt", "lte"):
            return self.ival_make(st, NINF, x, TRUE, Const(name == "lt"), node)
        if name == "point":
            return self.ival_make(st, x, x, FALSE, FALSE, node)
        return [(st, UnknownV("Interval.%s" % name))]

    # ------------------------------------------------- attributes of models
    def getattr_model(self, st, o, name, node):
        if self.is_ival(o):
            return self.ival_attr(st, o, name, node)
        if isinstance(o, ExtV):
            return self.ext_attr(st, o, name, node)
        if isinstance(o, UnknownV):
            return [(st, UnknownV("attribute %s of unknown" % name))]
        if isinstance(o, NdV):
            return self.nd_attr(st, o, name, node)
        if isinstance(o, (TupleV, SeqV)):
            return [(st, OpM(o, name))]
        if isinstance(o, BoundV):
            if name == "__name__":
                return [(st, Const(o.func.name))]
            if name == "__self__":
                return [(st, o.selfv)]
            if name == "__func__":
                return [(st, o.func)]
            return [(st, OpM(o, name))]
        if isinstance(o, ExcObj):
            return [(st, OpM(o, name))]
        if isinstance(o, Const):
            if isinstance(o.v, str):
                return [(st, OpM(o, name))]
            return self.exc(st, "AttributeError", node, "number has no attribute %s" % name) if not hasattr(0.0, name) and not hasattr(0, name) else [(st, OpM(o, name))]
        if isinstance(o, (Rat,)) or isinstance(o, Atom) and o.kind in NUMKINDS:
            if hasattr(0.0, name) or hasattr(0, name):
                return [(st, OpM(o, name))]
            return self.exc(st, "AttributeError", node, "number has no attribute %s" % name)
        if isinstance(o, Atom):
            if o.kind == "duration":
                if self.dur_seconds(o):
                    if name == "is_uniform":
                        return [(st, TRUE)]
                    if name in ("min_seconds", "max_seconds", "ave_seconds", "total_seconds"):
                        return [(st, Const(self.dur_seconds(o)))]
                months = self.dur_months(o)
                if months is not None:
                    if name == "is_uniform":
                        return [(st, FALSE)]
                    if name in months:
                        return [(st, Const(months[name]))]
                if name == "is_uniform":
                    return [(st, self.res(st, atom("uniform", o, kind="bool")))]
                if name in ("min_seconds", "max_seconds", "avg_seconds"):
                    return [(st, atom(name, o, meta="positive"))]
                return [(st, OpM(o, name))]
            if o.op == "ext:arrow.get":
                # arrow 0.12: the timestamp of a moment is a number of seconds
                if name == "timestamp":
                    return [(st, atom("seconds of", *o.args, isint=True))]
                return [(st, UnknownV("moment." + name))]
            if o.kind == "sig":
                return [(st, atom("sigparams", o, kind="sigparams")) if name == "parameters" else (st, OpM(o, name))]
            if o.kind == "sigparams":
                return [(st, OpM(o, name))]
            if o.kind == "param":
                if name == "kind":
                    return [(st, o.args[1])]
                return [(st, atom("attr", o, name, kind="obj"))]
            if o.kind == "func" and name == "__name__":
                return [(st, Const(str(o.args[0])))]
            if o.kind == "list":
                return [(st, OpM(o, name))]
            if o.kind == "str":
                return [(st, OpM(o, name))]
            return [(st, atom("attr", o, name, kind="obj"))]
        return [(st, OpM(o, name))]

    MATH_CONST = {"math.inf": float("inf"), "math.nan": float("nan"), "math.pi": math.pi, "math.e": math.e,
                  "math.tau": math.tau, "numpy.inf": float("inf"), "numpy.nan": float("nan"), "numpy.pi": math.pi}

    def ext_attr(self, st, o, name, node):
        full = o.name + "." + name
        if full in self.MATH_CONST:
            v = self.MATH_CONST[full]
            if full == "math.e":
                return [(st, atom("sym", "e", meta="positive"))]
            if math.isinf(v) or math.isnan(v):
                return [(st, Const(v))]
            return [(st, cfrac(v))]
        if o.name == "intervalpy.Interval" and name == "inf":
            return [(st, INF)]
        if o.name == "inspect.Parameter":
            return [(st, Const(name))]
        if name == "__name__":
            return [(st, Const(o.name.split(".")[-1]))]
        return [(st, ExtV(full))]

    # --------------------------------------------------------- model calls
    def call_model(self, st, f, args, kw, node):
        if isinstance(f, OpM):
            return self.call_opm(st, f, args, kw, node)
        name = f.name
        if name.startswith("prim:"):
            return getattr(self, "prim_" + name[5:])(st, args, kw, node)
        if name in EXC_PARENT:
            return [(st, ExcObj(name, args))]
        if name == "intervalpy.Interval":
            def a(i, key, d=None):
                return args[i] if i < len(args) else kw.get(key, d)
            if a(0, "start") is None or a(1, "end") is None:
                return self.exc(st, "TypeError", node, "Interval() arguments")
            return self.ival_make(st, a(0, "start"), a(1, "end"), a(2, "start_open", FALSE), a(3, "end_open", FALSE), node)
        if name.startswith("intervalpy.Interval."):
            return self.ival_static(st, name.split(".")[-1], args, kw, node)
        if name in ("property", "staticmethod", "classmethod"):
            if name == "property":
                a = list(args) + [NONE, NONE]
                return [(st, OpM(TupleV([kw.get("fget", a[0]), kw.get("fset", a[1])]), "__property__"))]
            return [(st, OpM(args[0], "__%s__" % name))]
        if name in ("dict.fromkeys",):
            out = []
            for s, vs in self.known_vals(st, args[0], node):
                if vs is None or isinstance(vs, ExcV):
                    out.append((s, vs or UnknownV("dict.fromkeys")))
                    continue
                d = self.new(s, Dct({}), "dict")
                cur = [s]
                for v in vs:
                    cur = [s3 for s2 in cur for s3, _ in self.setitem(s2, d, v, args[1] if len(args) > 1 else NONE, node)]
                out += [(s2, d) for s2 in cur]
            return out
        if name in BUILTIN_NAMES:
            h = getattr(self, "b_" + name, None)
            if h is not None:
                return h(st, args, kw, node)
            return [(st, UnknownV(name))]
        if name.startswith("math."):
            return self.call_math(st, name[5:], args, node)
        if name.startswith("numpy."):
            return self.call_numpy(st, name[6:], args, kw, node)
        if name == "pyduration.Duration.parse":
            v = self.res(st, args[0])
            if isinstance(v, Atom) and v.kind == "duration":
                return [(st, v)]
            return [(st, atom("duration", self.key(st, v), kind="duration"))]
        if name == "contextlib.contextmanager":
            return [(st, OpM(args[0], "__ctxmgr__"))]
        if name == "contextlib.suppress":
            return [(st, OpM(TupleV(args), "__suppress__"))]
        if name == "contextlib.nullcontext":
            return [(st, OpM(args[0] if args else NONE, "__null__"))]
        if name.startswith("dataclasses."):
            return self.call_dataclasses(st, name[12:], args, kw, node)
        if name == "enum.auto":
            return [(st, OpM(NONE, "__auto__"))]
        if name.split(".")[0] in ("typing", "contextlib", "abc", "enum", "types", "threading", "logging", "collections", "heapq", "statistics", "random", "os", "sys", "string", "re", "json", "copy", "time"):
            if name == "typing.cast":
                return [(st, args[1])]
            if name == "copy.deepcopy":
                return [(st, self.unk(st, name))]
            if name.startswith("logging."):
                return [(st, atom("ext:" + name, kind="obj"))]
            if not name.startswith("collections.") and name != "copy.copy":
                return [(st, UnknownV(name))]
        if name == "weakref.ref":
            return [(st, OpM(args[0], "__weakref__"))]
        if name in ("copy.copy",):
            return self.copy_obj(st, args[0], node)
        if name.startswith("bisect."):
            return self.call_bisect(st, name[7:], args, kw, node)
        if name.startswith("inspect."):
            return self.call_inspect(st, name[8:], args, kw, node)
        if name == "warnings.warn":
            return [(st, NONE)]
        if name.startswith("functools.partial"):
            return [(st, OpM(TupleV([args[0], TupleV(args[1:]), self.new(st, Dct({Const(k): v for k, v in kw.items()}), "dict")]), "__partial__"))]
        if name.startswith("itertools.") or name.startswith("operator.") or name.startswith("functools.") or name.startswith("collections."):
            return self.call_tools(st, name, args, kw, node)
        key = [self.key(st, a) for a in args] + [TupleV((Const(k), self.key(st, v))) for k, v in sorted(kw.items())]
        if any(isinstance(k, UnknownV) for k in key):
            return [(st, UnknownV(name))]
        return [(st, atom("ext:" + name, *key, kind="obj"))]

    def call_tools(self, st, name, args, kw, node):
        short = name.split(".", 1)[1]
        if name.startswith("operator."):
            ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "pow": ast.Pow, "mod": ast.Mod}
            cs = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}
            if short in ops:
                return self.binop(st, ops[short](), args[0], args[1], node)
            if short in cs:
                return [(s, Const(b) if isinstance(b, bool) else b) for s, b in self.compare(st, cs[short](), args[0], args[1], node)]
            if short == "neg":
                return self.unary(st, ast.USub(), args[0], node)
            ops2 = {"floordiv": ast.FloorDiv, "iadd": ast.Add, "isub": ast.Sub, "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor}
            if short in ops2:
                return self.binop(st, ops2[short](), args[0], args[1], node)
            if short in ("is_", "is_not"):
                return [(s, (Const(b == (short == "is_"))) if isinstance(b, bool) else b) for s, b in self.identical(st, args[0], args[1])]
            if short in ("not_", "truth"):
                return [(s, Const(b == (short == "truth")) if isinstance(b, bool) else b) for s, b in self.truth(st, args[0], node)]
            if short == "abs":
                return self.b_abs(st, args, kw, node)
            if short == "pos":
                return [(st, args[0])]
            if short == "getitem":
                return self.getitem(st, args[0], args[1], node)
            if short in ("itemgetter", "attrgetter"):
                return [(st, OpM(args[0] if len(args) == 1 else TupleV(args), "__%s%s__" % (short, "" if len(args) == 1 else "s")))]
            if short == "methodcaller":
                return [(st, OpM(TupleV([args[0], TupleV(args[1:]), self.new(st, Dct({Const(k): v for k, v in kw.items()}), "dict")]), "__methodcaller__"))]
            return [(st, UnknownV(name))]
        if short == "reduce":
            out = []
            for s, vs in self.known_vals(st, args[1], node):
                if vs is None or isinstance(vs, ExcV):
                    out.append((s, vs if vs is not None else UnknownV("reduce")))
                    continue
                if len(args) > 2:
                    vs = [args[2]] + vs
                if not vs:
                    out += self.exc(s, "TypeError", node, "reduce of empty sequence")
                    continue
                cur = [(s, vs[0])]
                for v in vs[1:]:
                    nxt = []
                    for s2, acc in cur:
                        for s3, r in self.call(s2, args[0], [acc, v], {}, node):
                            if isinstance(r, ExcV):
                                out.append((s3, r))
                            else:
                                nxt.append((s3, r))
                    cur = nxt
                out += cur
            return out
        if short in ("chain", "chain.from_iterable"):
            out = []
            if short == "chain":
                lists = [(st, args)]
            else:
                lists = self.known_vals(st, args[0], node)
            for s, ls in lists:
                if ls is None or isinstance(ls, ExcV):
                    out.append((s, ls or UnknownV("chain")))
                    continue
                cur = [(s, [])]
                for l in ls:
                    nxt = []
                    for s2, acc in cur:
                        for s3, segs in self.as_segs(s2, l, node):
                            if isinstance(segs, ExcV):
                                out.append((s3, segs))
                            else:
                                nxt.append((s3, acc + list(segs)))
                    cur = nxt
                out += [(s2, self.new(s2, Lst(acc), "list")) for s2, acc in cur]
            return out
        if short == "islice":
            if self.is_gen(st, self.res(st, args[0])):
                g = self.rec(st, self.res(st, args[0]))
                k = self.res(st, args[1])
                if g.mode == "count" and len(args) == 2 and isinstance(k, Const):
                    return [(st, SeqV([r_add(g.a[0], r_mul(Const(i), g.a[1])) for i in range(int(k.v))]))]
                out = []
                for s in self.store(st, self.res(st, args[0]), node):
                    out += self.slice(s, self.newlist(s, [v for _, v in self.rec(s, self.res(s, args[0])).segs]) if self.rec(s, self.res(s, args[0])).known() else UnknownV("islice"), *((NONE, args[1]) if len(args) == 2 else (args[1], args[2])), NONE, node)
                return out
            lo, hi = (NONE, args[1]) if len(args) == 2 else (args[1], args[2])
            return self.slice(st, args[0], lo, hi, NONE, node)
        if short in ("takewhile", "dropwhile"):
            out = []
            for s, vs in self.known_vals(st, args[1], node):
                if vs is None or isinstance(vs, ExcV):
                    out.append((s, vs or UnknownV(short)))
                    continue
                cur = [s]
                for i, v in enumerate(vs):
                    nxt = []
                    for s2 in cur:
                        for s3, r in self.call(s2, args[0], [v], {}, node):
                            if isinstance(r, ExcV):
                                out.append((s3, r))
                                continue
                            for s4, b in self.truth(s3, r, node):
                                if b:
                                    nxt.append(s4)
                                else:
                                    out.append((s4, SeqV(vs[:i] if short == "takewhile" else vs[i:])))
                    cur = nxt
                out += [(s2, SeqV(vs if short == "takewhile" else [])) for s2 in cur]
            return out
        if short == "cmp_to_key":
            return [(st, OpM(args[0], "__cmpmaker__"))]
        if short in ("wraps",):
            return [(st, OpM(args[0], "__wraps__"))]
        if short == "deque":
            if len(args) > 1 or kw:
                return [(st, UnknownV("bounded deque"))]
            return self.b_list(st, args[:1], {}, node)
        if short == "OrderedDict":
            return self.b_dict(st, args[:1], kw, node)
        if short == "defaultdict":
            out = []
            for s, d in self.b_dict(st, args[1:2], kw, node):
                if isinstance(d, Ref) and args and args[0] != NONE:
                    self.mut(s, d).d = dict(self.rec(s, d).d)
                    self.mut(s, d).default = args[0]
                out.append((s, d))
            return out
        if short == "namedtuple":
            names = self.res(st, args[1])
            if isinstance(names, Const):
                fs = tuple(names.v.replace(",", " ").split())
            else:
                fs = None
                for s, vs in self.known_vals(st, names, node):
                    if vs is not None and not isinstance(vs, ExcV) and all(isinstance(v, Const) for v in vs):
                        fs = tuple(v.v for v in vs)
            if fs is None or kw:
                return [(st, UnknownV(name))]
            return [(st, OpM(TupleV([args[0]] + [Const(f) for f in fs]), "__namedtuple__"))]
        if short in ("lru_cache", "cache"):
            if args and not isinstance(args[0], Const):
                return [(st, OpM(TupleV([args[0], self.new(st, Dct({}), "dict")]), "__cached__"))]
            return [(st, OpM(NONE, "__cacher__"))]
        if short == "count":
            return [(st, self.new_gen(st, "count", (args[0] if args else kw.get("start", Const(0)), args[1] if len(args) > 1 else kw.get("step", Const(1)))))]
        if short == "repeat" and len(args) > 1:
            k = self.res(st, args[1])
            if isinstance(k, Const):
                return [(st, SeqV([args[0]] * max(0, int(k.v))))]
        if short in ("pairwise", "zip_longest", "accumulate", "product", "combinations", "permutations", "starmap", "compress", "tee"):
            return self.call_iter_tool(st, short, args, kw, node)
        return [(st, UnknownV(name))]

    def call_iter_tool(self, st, short, args, kw, node):
        import itertools
        fn = None
        seqs = list(args)
        rest = []
        if short == "accumulate":
            fn = args[1] if len(args) > 1 else kw.get("func", ExtV("operator.add"))
            seqs = args[:1]
            if "initial" in kw:
                return [(st, UnknownV(short))]
        elif short == "starmap":
            fn, seqs = args[0], args[1:]
        elif short in ("combinations", "permutations", "tee"):
            seqs, rest = args[:1], args[1:]
        cur, out = [(st, [])], []
        for a in seqs:
            nxt = []
            for s, acc in cur:
                for s2, vs in self.known_vals(s, a, node):
                    if vs is None or isinstance(vs, ExcV):
                        out.append((s2, vs if vs is not None else UnknownV(short)))
                    else:
                        nxt.append((s2, acc + [vs]))
            cur = nxt
        rest = [self.res(st, r) for r in rest]
        for s, vs in cur:
            if not all(isinstance(r, Const) for r in rest):
                out.append((s, UnknownV(short)))
            elif short == "tee":
                k = rest[0].v if rest else 2
                out.append((s, TupleV([self.newlist(s, vs[0], "iter") for _ in range(k)])))
            elif short == "pairwise":
                out.append((s, SeqV([TupleV(p) for p in zip(vs[0], vs[0][1:])])))
            elif short == "zip_longest":
                out.append((s, SeqV([TupleV(p) for p in itertools.zip_longest(*vs, fillvalue=kw.get("fillvalue", NONE))])))
            elif short == "product" and not kw:
                out.append((s, SeqV([TupleV(p) for p in itertools.product(*vs)])))
            elif short in ("combinations", "permutations"):
                out.append((s, SeqV([TupleV(p) for p in getattr(itertools, short)(vs[0], *[r.v for r in rest])])))
            elif short == "compress":
                c2 = [(s, [])]
                for v, b in zip(*vs):
                    c2 = [(s3, acc + [v] if t is True else acc) for s2, acc in c2 for s3, t in self.truth(s2, b, node)]
                out += [(s2, SeqV(acc)) for s2, acc in c2]
            elif short in ("accumulate", "starmap"):
                c2 = [(s, [])]
                for v in vs[0]:
                    nx = []
                    for s2, acc in c2:
                        if short == "accumulate":
                            rs = self.call(s2, fn, [acc[-1], v], {}, node) if acc else [(s2, v)]
                        else:
                            rs = []
                            for s3, ws in self.known_vals(s2, v, node):
                                rs += self.call(s3, fn, ws, {}, node) if isinstance(ws, list) else [(s3, ws if ws is not None else UnknownV(short))]
                        for s3, w in rs:
                            if isinstance(w, ExcV):
                                out.append((s3, w))
                            else:
                                nx.append((s3, acc + [w]))
                    c2 = nx
                out += [(s2, SeqV(acc)) for s2, acc in c2]
            else:
                out.append((s, UnknownV(short)))
        return out

    def call_dataclasses(self, st, name, args, kw, node):
        if name == "replace":
            o = self.res(st, args[0])
            if isinstance(o, Ref) and isinstance(self.rec(st, o), Obj):
                r = self.rec(st, o)
                return self.instantiate(st, r.cls, [], dict({f[0]: r.f[f[0]] for f in self.ann_fields(r.cls)}, **kw), node)
        if name == "astuple":
            o = self.res(st, args[0])
            if isinstance(o, Ref) and isinstance(self.rec(st, o), Obj):
                r = self.rec(st, o)
                return [(st, TupleV([r.f[f[0]] for f in self.ann_fields(r.cls)]))]
        return [(st, UnknownV("dataclasses." + name))]

    def copy_obj(self, st, v, node):
        v = self.res(st, v)
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Obj):
                k, mem = self.p.lookup(r.cls, "__copy__")
                if mem is not None:
                    return self.call_method(st, v, "__copy__", [], {}, node)
            return [(st, self.new(st, r.copy(), v.kind))]
        return [(st, v)]

    def call_math(self, st, name, args, node):
        if name == "fsum":
            return self.b_sum(st, args, {}, node)
        if name == "prod":
            return self.call_tools(st, "functools.reduce", [ExtV("operator.mul"), args[0], Const(1)], {}, node)
        if name in ("gcd", "lcm", "comb", "perm", "factorial", "dist", "nextafter", "ulp", "frexp", "modf", "ldexp", "isqrt", "remainder"):
            vals = [self.res(st, a) for a in args]
            if name in ("gcd", "lcm", "comb", "factorial", "isqrt") and all(isinstance(v, Const) and isinstance(v.v, int) for v in vals):
                try:
                    return [(st, Const(getattr(math, name)(*[v.v for v in vals])))]
                except ValueError:
                    return self.exc(st, "ValueError", node)
            return [(st, UnknownV("math." + name))]
        if name == "isclose":
            vals = [self.res(st, a) for a in args[:2]]
            if len(args) == 2 and all(isinstance(v, Const) and num(v) for v in vals):
                return [(st, Const(math.isclose(float(vals[0].v), float(vals[1].v))))] 
            return [(s, TRUE if b is True else UnknownV("math.isclose")) for s, b in self.eq(st, args[0], args[1], node)]
        out = []
        for s, x in self.denull(st, args[0]):
            if isinstance(x, UnknownV):
                out.append((s, x))
                continue
            x = self.nb(x)
            if not num(x):
                if isinstance(x, Atom):
                    out.append((s, atom("math." + name, x, *[self.key(s, a) for a in args[1:]], kind="obj")))
                    continue
                out += self.exc(s, "TypeError", node, "math.%s(%s)" % (name, show(x)))
                continue
            if name in ("isinf", "isnan", "isfinite"):
                i, n = isinf_const(x), isnan_const(x)
                out.append((s, Const({"isinf": i, "isnan": n, "isfinite": not i and not n}[name])))
                continue
            if name in ("floor", "ceil", "trunc"):
                if isinf_const(x) or isnan_const(x):
                    out += self.exc(s, "OverflowError", node, "cannot convert infinity to integer")
                elif name == "trunc":
                    out += self.b_int(s, [x], {}, node)
                else:
                    out += self.floors(s, x) if name == "floor" else self.ceils(s, x)
                continue
            if name == "fabs":
                out += self.b_abs(s, [x], {}, node)
                continue
            if name in ("log", "log2", "log10"):
                base = args[1] if len(args) > 1 else {"log2": Const(2), "log10": Const(10)}.get(name)
                out += self.log(s, x, base, node)
                continue
            if name == "pow":
                for s2, y in self.denull(s, args[1]):
                    if num(y):
                        out += self.numop(s2, ast.Pow(), x, self.nb(y), node)
                    else:
                        out += self.exc(s2, "TypeError", node, "math.pow")
                continue
            rest = [self.res(s, a) for a in args[1:]]
            if name == "copysign":
                for s2, p in self.b_abs(s, [x], {}, node):
                    for s3, neg in self.compare(s2, ast.Lt(), rest[0], Const(0), node):
                        out.append((s3, p if neg is False else r_neg(p) if neg is True and not isinf_const(p) else neg if isinstance(neg, (ExcV, UnknownV)) else Const(-p.v)))
                continue
            if name == "fmod":
                y = self.nb(rest[0])
                if isinf_const(x):
                    out += self.exc(s, "ValueError", node, "math domain error")
                    continue
                if not num(y) or isinf_const(y) or isnan_const(y) or isnan_const(x):
                    out.append((s, UnknownV("math.fmod")))
                    continue
                for s2, z in self.split_cmp(s, y, "="):
                    if z:
                        out += self.exc(s2, "ValueError", node, "math domain error")
                        continue
                    for s3, p in self.b_abs(s2, [x], {}, node):
                        for s4, q in self.b_abs(s3, [y], {}, node):
                            for s5, m in self.numop(s4, ast.Mod(), p, q, node):
                                for s6, neg in self.compare(s5, ast.Lt(), x, Const(0), node):
                                    out.append((s6, r_neg(m) if neg is True else m))
                continue
            if isinstance(x, Const) and all(isinstance(a, Const) for a in rest):
                try:
                    v = getattr(math, name)(float(x.v), *[float(a.v) for a in rest])
                    out.append((s, cfrac(v) if isinstance(v, float) else Const(v)))
                except (ValueError, OverflowError, AttributeError, TypeError):
                    out += self.exc(s, "ValueError", node, "math domain error")
                continue
            if name in ("sin", "cos"):
                out.append((s, self.wave(name, x)))
                continue
            if name in ("sqrt", "hypot", "atan2"):
                out += self.root_or_angle(s, name, x, rest, node)
                continue
            out.append((s, atom("math." + name, x, *[self.key(s, a) for a in rest])))
        return out

    def wave(self, name, x):
        """sine or cosine of a sum with an angle given by atan2, by the addition theorems"""
        WAVES[0] = True
        n, d = to_rat(x)
        for a in sorted({a for m in n.t for a, _ in m if a.op == "math.atan2"}, key=lambda a: a.id):
            k = Poly({mdiv(m, ((a, 1),)): c for m, c in n.t.items() if dict(m).get(a) == 1})
            if k != d and pscale(k, -1) != d:
                continue
            sign = Const(1 if k == d else -1)
            rest = r_add(x, r_mul(sign, a), -1)
            h = atom("math.sqrt", r_add(r_mul(a.args[0], a.args[0]), r_mul(a.args[1], a.args[1])), meta="positive")
            sn, cs = r_mul(sign, r_div(a.args[0], h)), r_div(a.args[1], h)
            s0, c0 = self.wave("sin", rest), self.wave("cos", rest)
            if name == "sin":
                return r_add(r_mul(s0, cs), r_mul(c0, sn))
            return r_add(r_mul(c0, cs), r_mul(s0, sn), -1)
        if isinstance(x, Const):
            if x.v == 0:
                return Const(0 if name == "sin" else 1)
            return cfrac(getattr(math, name)(float(x.v)))
        return atom("math." + name, x)

    def squares(self, x):
        """the squares of which a value is the sum, or None"""
        n, d = to_rat(x)
        if not d.is_const() and not (len(d.t) == 1 and all(e % 2 == 0 for m in d.t for _, e in m)):
            return None
        out = []
        for m, c in n.t.items():
            if c < 0 or not m or any(e % 2 for _, e in m):
                return None
            v = Const(1)
            for a, e in m:
                if a.meta != "positive":
                    v = r_mul(v, a)
            out.append(v)
        return out

    def root_or_angle(self, st, name, x, rest, node):
        WAVES[0] = True
        out = []
        if name == "sqrt":
            squares = self.squares(x)
            if squares is not None:
                # zero only where every square is
                zero, rest = [st], []
                for q in squares:
                    now, zero = zero, []
                    for s in now:
                        for s2, z in self.split_cmp(s, q, "="):
                            (zero if z else rest).append(s2)
                return [(s, Const(0)) for s in zero] + [(s, atom("math.sqrt", self.fn(s, x), meta="positive")) for s in rest]
            for s, neg in self.split_cmp(st, x, "<"):
                if neg:
                    out += self.exc(s, "ValueError", node, "math domain error")
                    continue
                for s2, z in self.split_cmp(s, x, "="):
                    out.append((s2, Const(0) if z else atom("math.sqrt", self.fn(s2, x), meta="positive")))
            return out
        if len(rest) != 1 or not num(rest[0]):
            return [(st, atom("math." + name, x, *rest))]
        y = rest[0]
        squares = self.squares(r_add(r_mul(x, x), r_mul(y, y)))
        if squares is not None:
            zero, rest = [st], []
            for q in squares:
                now, zero = zero, []
                for s in now:
                    for s2, z in self.split_cmp(s, q, "="):
                        (zero if z else rest).append(s2)
            out = [(s, Const(0)) for s in zero]
            for s in rest:
                x2, y2 = self.fn(s, x), self.fn(s, y)
                if name == "hypot":
                    out.append((s, atom("math.sqrt", r_add(r_mul(x2, x2), r_mul(y2, y2)), meta="positive")))
                else:
                    out.append((s, atom("math.atan2", x2, y2)))
            return out
        for s, z in self.split_cmp(st, x, "="):
            if not z:
                ok = [(s, False)]
            else:
                ok = self.split_cmp(s, y, "=")
            for s2, both in ok:
                if both:
                    out.append((s2, Const(0)))
                elif name == "hypot":
                    x2, y2 = self.fn(s2, x), self.fn(s2, y)
                    out.append((s2, atom("math.sqrt", r_add(r_mul(x2, x2), r_mul(y2, y2)), meta="positive")))
                else:
                    out.append((s2, atom("math.atan2", self.fn(s2, x), self.fn(s2, y))))
        return out

    def ln(self, v):
        if isinstance(v, Const):
            f = Fraction(v.v)
            r = Const(0)
            for n, sign in ((f.numerator, 1), (f.denominator, -1)):
                for p, k in factors(n):
                    r = r_add(r, r_mul(Const(sign * k), atom("ln", Const(p))))
            return r
        if isinstance(v, Atom) and v.op == "sym" and v.args[0] == "e":
            return Const(1)
        return atom("ln", v)

    def antiln(self, v):
        """e to the power of a whole combination of logarithms of constants"""
        r = to_rat(v)
        if r is None or not r.d.is_const():
            return None
        out = Fraction(1)
        for m, c in r.n.t.items():
            c = Fraction(c) / r.d.const()
            if not m or len(m) != 1 or m[0][1] != 1 or c.denominator != 1 or abs(c) > 64:
                return None
            a = m[0][0]
            if a.op != "ln" or not isinstance(a.args[0], Const):
                return None
            out *= Fraction(a.args[0].v) ** int(c)
        return cfrac(out)

    def log(self, st, x, base, node):
        if isinf_const(x):
            return [(st, UnknownV("log of infinity"))]
        if isinstance(x, Const) and x.v <= 0:
            return self.exc(st, "ValueError", node, "math domain error")
        if base is None:
            return [(st, self.ln(x))]
        out = []
        for s, b in self.denull(st, base):
            if not num(b):
                out += self.exc(s, "TypeError", node, "log base")
                continue
            if isinf_const(b):
                out.append((s, UnknownV("log")))
                continue
            lb = self.ln(self.nb(b))
            if isinstance(lb, Const) and lb.v == 0:
                out += self.exc(s, "ZeroDivisionError", node, "log base 1")
                continue
            out.append((s, r_div(self.ln(x), lb)))
        return out

    def call_bisect(self, st, name, args, kw, node):
        a, x = args[0], args[1]
        out = []
        for s, vs in self.known_vals(st, a, node):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            lo = self.res(s, args[2]) if len(args) > 2 else kw.get("lo", Const(0))
            hi = self.res(s, args[3]) if len(args) > 3 else kw.get("hi", NONE)
            if vs is None or any(k not in ("key", "lo", "hi") for k in kw) or not isinstance(lo, Const) or not isinstance(hi, Const):
                if name.startswith("insort"):
                    self.taint(s, "insort")
                out.append((s, UnknownV("bisect")))
                continue
            lo, hi = int(lo.v), len(vs) if hi.v is None else min(int(hi.v), len(vs))
            keyf = kw.get("key", NONE)
            xs = [(s, x)]
            if keyf != NONE and name.startswith("insort"):
                xs = self.call(s, keyf, [x], {}, node)
            for s0, xk in xs:
                if isinstance(xk, ExcV):
                    out.append((s0, xk))
                    continue
                ks = [(s0, [])]
                if keyf != NONE:
                    for v in vs:
                        ks = [(s3, acc + [w]) for s2, acc in ks for s3, w in self.call(s2, keyf, [v], {}, node)]
                else:
                    ks = [(s0, list(vs))]
                for s2, kv in ks:
                    bad = [w for w in kv if isinstance(w, ExcV)]
                    if bad:
                        out.append((s2, bad[0]))
                    else:
                        out += self._bisect(s2, name, a, kv, x, xk, lo, hi, node)
        return out

    def _bisect(self, st, name, a, vs, item, x, lo, hi, node):
        out = []
        for s in [st]:
            left = name.endswith("_left")
            cur = [s]
            res = []
            for i in range(lo, hi):
                v = vs[i]
                nxt = []
                for s2 in cur:
                    # position is i when x <= v (left) or x < v (right)
                    for s3, b in self.compare(s2, ast.LtE() if left else ast.Lt(), x, v, node):
                        if isinstance(b, (ExcV, UnknownV)):
                            out.append((s3, b))
                        elif b:
                            res.append((s3, i))
                        else:
                            nxt.append(s3)
                cur = nxt
            res += [(s2, max(lo, hi)) for s2 in cur]
            for s2, i in res:
                if name.startswith("insort"):
                    r = self.mut(s2, a)
                    segs = list(r.segs)
                    segs.insert(i, ("e", item))
                    r.segs = tuple(segs)
                    out.append((s2, NONE))
                else:
                    out.append((s2, Const(i)))
        return out

    # inspect
    def positional(self, st, f):
        """parameter kinds of a callable, None when unknown"""
        f = self.res(st, f)
        drop = 0
        if isinstance(f, BoundV):
            drop = 1
            f = f.func
        if isinstance(f, OpM) and f.name == "__partial__":
            inner = self.positional(st, f.recv.items[0])
            return None if inner is None else inner[len(f.recv.items[1].items):]
        if isinstance(f, FuncV) and f.wrapped is not None:
            inner = self.positional(st, f.wrapped)
            return None if inner is None else inner[drop:]
        if isinstance(f, FuncV):
            a = f.node.args
            ps = [("POSITIONAL_ONLY" if i < len(a.posonlyargs) else "POSITIONAL_OR_KEYWORD") for i in range(len(a.posonlyargs) + len(a.args))][drop:]
            if a.vararg:
                ps.append("VAR_POSITIONAL")
            ps += ["KEYWORD_ONLY"] * len(a.kwonlyargs)
            if a.kwarg:
                ps.append("VAR_KEYWORD")
            return ps
        if isinstance(f, Atom) and f.kind == "func":
            n = f.meta[1] if isinstance(f.meta, tuple) else 1
            return ["POSITIONAL_OR_KEYWORD"] * n
        if isinstance(f, ClassV):
            k, mem = self.p.lookup(f.info, "__init__")
            if mem is not None:
                a = mem[1].args
                return ["POSITIONAL_OR_KEYWORD"] * (len(a.args) - 1)
            return []
        if isinstance(f, Ref) and isinstance(self.rec(st, f), Obj):
            k, mem = self.p.lookup(self.rec(st, f).cls, "__call__")
            if mem is not None:
                a = mem[1].args
                return ["POSITIONAL_OR_KEYWORD"] * (len(a.args) - 1) + (["VAR_POSITIONAL"] if a.vararg else [])
        return None

    def call_inspect(self, st, name, args, kw, node):
        v = self.res(st, args[0])
        if name == "isbuiltin":
            return [(st, Const(isinstance(v, ExtV) and v.name in BUILTIN_NAMES and v.name not in ("list", "tuple", "int", "float", "str", "set", "dict", "bool") or
                               isinstance(v, OpM)))]
        if name in ("signature",):
            if self.positional(st, v) is None:
                return [(st, UnknownV("signature"))]
            return [(st, atom("signature", self.key(st, v), kind="sig"))]
        if name == "ismethod":
            return [(st, Const(isinstance(v, BoundV)))]
        if name == "isfunction":
            return [(st, Const(isinstance(v, FuncV)))]
        if name == "isclass":
            return [(st, Const(isinstance(v, ClassV)))]
        if name == "getmembers":
            cls = v.info if isinstance(v, ClassV) else (self.rec(st, v).cls if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj) else None)
            if cls is None:
                return [(st, UnknownV("getmembers"))]
            pred = args[1] if len(args) > 1 else kw.get("predicate", NONE)
            seen = {}
            for k in self.p.mro(cls):
                for m, mem in k.members.items():
                    seen.setdefault(m, mem)
            names = []
            for m, mem in sorted(seen.items()):
                if mem[0] != "func":
                    ok = not isinstance(pred, ExtV)
                elif isinstance(pred, ExtV) and pred.name == "inspect.ismethod":
                    ok = mem[2] == "class" or (mem[2] == "method" and not isinstance(v, ClassV))
                elif isinstance(pred, ExtV) and pred.name == "inspect.isfunction":
                    ok = mem[2] == "static" or (mem[2] == "method" and isinstance(v, ClassV))
                else:
                    ok = True
                if ok:
                    names.append(TupleV([Const(m), atom("memberof", Const(m), kind="obj")]))
            return [(st, self.newlist(st, names))]
        if name == "getfullargspec":
            return [(st, UnknownV("argspec"))]
        return [(st, UnknownV("inspect." + name))]

    # opaque functions given by the scenario
    def call_opaque(self, st, f, args, kw, node):
        st.event("call", f, tuple(self.key(st, a) for a in args))
        m = f.meta if isinstance(f.meta, tuple) else ("nnum", None)
        if m[1] is not None and len(args) != m[1]:
            return self.exc(st, "TypeError", node, "%s takes %d arguments" % (show(f), m[1]))
        return [(st, self.app(st, f, args, m[0]))]

    def app(self, st, f, args, kind):
        key = tuple(self.key(st, a) for a in args)
        if any(isinstance(k, UnknownV) for k in key):
            return UnknownV("application to unknown")
        key = tuple(st.facts.norm(k) if isinstance(k, (Atom, Rat)) else k for k in key)
        if kind == "nnum":
            return self.res(st, atom("app", f, *key, nullable=True))
        if kind == "num":
            return self.res(st, atom("app", f, *key))
        if kind == "pos":
            return atom("app", f, *key, meta="positive")
        if kind == "int":
            return atom("app", f, *key, isint=True)
        if kind == "bool":
            return self.res(st, atom("app", f, *key, kind="bool"))
        if kind == "none":
            return NONE
        return self.res(st, atom("app", f, *key, kind=kind))

    # ------------------------------------------------------------ builtins
    def b_len(self, st, args, kw, node):
        v = self.res(st, args[0])
        if isinstance(v, Atom) and v.nullable and st.facts.null(v) is not False:
            out = []
            for s, x in self.denull(st, v):
                out += self.b_len(s, [x], kw, node)
            return out
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj):
            k, mem = self.p.lookup(self.rec(st, v).cls, "__len__")
            if mem is None:
                return self.exc(st, "TypeError", node, "no len()")
            return self.call_method(st, v, "__len__", [], {}, node)
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Dct):
            return [(st, Const(len(self.rec(st, v).d)))]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [(st, Const(len(v.v)))]
        if self.is_ival(v):
            return [(s, Const(0 if e else 2)) for s, e in self.ival_empty(st, v)]
        if self.is_listish(st, v):
            return [(st, self.fn(st, self.list_len(st, v)))]
        if isinstance(v, Atom) and v.kind == "obj":
            return [(st, atom("len", v, isint=True))]
        if isinstance(v, UnknownV):
            return [(st, v)]
        return self.exc(st, "TypeError", node, "no len() of %s" % show(v))

    def b_range(self, st, args, kw, node):
        vs = [self.fn(st, self.nb(self.res(st, a))) for a in args]
        if any(isinstance(v, UnknownV) for v in vs):
            return [(st, UnknownV("range"))]
        for v in vs:
            if not num(v) or (isinstance(v, Const) and not isinstance(v.v, int)):
                return self.exc(st, "TypeError", node, "range(%s)" % show(v))
        lo, hi, step = Const(0), None, Const(1)
        if len(vs) == 1:
            hi = vs[0]
        elif len(vs) == 2:
            lo, hi = vs
        else:
            lo, hi, step = vs
        if all(isinstance(v, Const) for v in (lo, hi, step)):
            r = range(lo.v, hi.v, step.v)
            if len(r) > 200:
                return [(st, UnknownV("long range"))]
            return [(st, SeqV([Const(i) for i in r]))]
        if step in (Const(1), Const(-1)):
            out = []
            n = r_add(hi, lo, -1) if step.v == 1 else r_add(lo, hi, -1)
            for s, neg in self.split_cmp(st, n, "<="):
                if neg:
                    out.append((s, SeqV([])))
                else:
                    out.append((s, atom("range", lo, hi, step, kind="list")))
            return out
        return [(st, UnknownV("range"))]

    def b_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", Const(0))
        out = []
        for s, vs in self.known_vals(st, args[0], node):
            if vs is None:
                segs = self.as_segs(s, args[0], node)[0][1]
                if len(segs) == 1 and isinstance(start, Const):
                    L = segs[0][1]
                    b = atom("bound", "i0", isint=True)
                    out.append((s, atom("mapseq", L, TupleV([r_add(b, start), self.elem(s, L, b)]), kind="list")))
                else:
                    out.append((s, UnknownV("enumerate")))
            elif isinstance(vs, ExcV):
                out.append((s, vs))
            else:
                out.append((s, SeqV([TupleV([r_add(start, Const(i)), v]) for i, v in enumerate(vs)])))
        return out

    def b_zip(self, st, args, kw, node):
        counts = [i for i, a in enumerate(args) if self.is_gen(st, a) and self.rec(st, a).mode == "count"]
        if counts and len(counts) < len(args):
            out = []
            rest = [a for i, a in enumerate(args) if i not in counts]
            for s, z in self.b_zip(st, rest, kw, node):
                if isinstance(z, (ExcV, UnknownV)):
                    out.append((s, z))
                    continue
                rows = []
                for k, row in enumerate(z.vals):
                    it = iter(row.items)
                    rows.append(TupleV([r_add(self.rec(s, a).a[0], r_mul(Const(k), self.rec(s, a).a[1])) if i in counts else next(it) for i, a in enumerate(args)]))
                out.append((s, SeqV(rows)))
            return out
        cur = [(st, [])]
        out = []
        for a in args:
            nxt = []
            for s, acc in cur:
                for s2, vs in self.known_vals(s, a, node):
                    if vs is None or isinstance(vs, ExcV):
                        out.append((s2, vs if vs is not None else UnknownV("zip")))
                    else:
                        nxt.append((s2, acc + [vs]))
            cur = nxt
        return out + [(s, SeqV([TupleV(t) for t in zip(*acc)])) for s, acc in cur]

    def b_map(self, st, args, kw, node):
        f = args[0]
        out = []
        if len(args) > 2:
            for s, z in self.b_zip(st, args[1:], {}, node):
                if not isinstance(z, SeqV):
                    out.append((s, z))
                    continue
                out += self._map_known(s, f, [t.items for t in z.vals], node)
            return out
        for s, vs in self.known_vals(st, args[1], node):
            if isinstance(vs, ExcV):
                out.append((s, vs))
            elif vs is None:
                segs = self.as_segs(s, args[1], node)[0][1]
                res = []
                ok = True
                for k, v in segs:
                    b = atom("bound", "i0", isint=True)
                    el = self.elem(s, v, b) if k == "s" else v
                    rs = self.call(s, f, [el], {}, node)
                    if len(rs) != 1 or isinstance(rs[0][1], ExcV):
                        ok = False
                        break
                    s = rs[0][0]
                    res.append((k, rs[0][1] if k == "e" else atom("mapseq", v, self.key(s, rs[0][1]), kind="list")))
                out.append((s, self.new(s, Lst(res), "list") if ok else UnknownV("map")))
            else:
                out += self._map_known(s, f, [[v] for v in vs], node)
        return out

    def _map_known(self, st, f, argss, node):
        cur = [(st, [])]
        out = []
        for a in argss:
            nxt = []
            for s, acc in cur:
                for s2, r in self.call(s, f, list(a), {}, node):
                    if isinstance(r, ExcV):
                        out.append((s2, r))
                    else:
                        nxt.append((s2, acc + [r]))
            cur = nxt
        return out + [(s, SeqV(acc)) for s, acc in cur]

    def b_filter(self, st, args, kw, node):
        f = args[0]
        out = []
        for s, vs in self.known_vals(st, args[1], node):
            if vs is None or isinstance(vs, ExcV):
                out.append((s, vs if vs is not None else UnknownV("filter")))
                continue
            cur = [(s, [])]
            for v in vs:
                nxt = []
                for s2, acc in cur:
                    rs = [(s2, v)] if f == NONE else self.call(s2, f, [v], {}, node)
                    for s3, r in rs:
                        if isinstance(r, ExcV):
                            out.append((s3, r))
                            continue
                        for s4, b in self.truth(s3, r, node):
                            if isinstance(b, ExcV):
                                out.append((s4, b))
                            else:
                                nxt.append((s4, acc + [v] if b else acc))
                cur = nxt
            out += [(s2, SeqV(acc)) for s2, acc in cur]
        return out

    def b_list(self, st, args, kw, node, kind="list"):
        if not args:
            return [(st, self.new(st, Lst([]), "list"))]
        out = []
        for s, segs in self.as_segs(st, args[0], node):
            out.append((s, segs if isinstance(segs, ExcV) else self.new(s, Lst(segs), "list")))
        return out

    def b_tuple(self, st, args, kw, node):
        if not args:
            return [(st, TupleV([]))]
        out = []
        for s, segs in self.as_segs(st, args[0], node):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out.append((s, TupleV([v for _, v in segs])))
            else:
                out.append((s, self.new(s, Lst(segs), "list")))
        return out

    def b_iter(self, st, args, kw, node):
        v = self.res(st, args[0])
        if self.is_gen(st, v) or isinstance(v, Ref) and isinstance(self.rec(st, v), Lst) and self.rec(st, v).kind == "iter":
            return [(st, v)]
        out = []
        for s, segs in self.as_segs(st, args[0], node):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out.append((s, self.newlist(s, [v for _, v in segs], "iter")))
            else:
                out.append((s, self.new(s, Lst(segs), "list")))
        return out

    def b_next(self, st, args, kw, node):
        v = self.res(st, args[0])
        if self.is_gen(st, v):
            if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Call):
                return self.first_of(st, v, args[1] if len(args) > 1 else None, node)
            if self.rec(st, v).mode == "count":
                g = self.rec(st, v)
                x = g.a[0]
                out = []
                for s, w in self.binop(st, ast.Add(), x, g.a[1], node):
                    s.heap[v.id] = Gen("count", (w, g.a[1]))
                    out.append((s, x))
                return out
            out = []
            for s in self.store(st, v, node):
                out += self.b_next(s, args, kw, node)
            return out
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj):
            return self.call_method(st, v, "__next__", [], {}, node)
        if isinstance(v, SeqV):
            if v.vals:
                return [(st, v.vals[0])]
            return [(st, args[1])] if len(args) > 1 else self.exc(st, "StopIteration", node)
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Lst):
            r = self.rec(st, v)
            if r.kind == "iter":
                if r.segs:
                    if r.segs[0][0] != "e":
                        return [(st, UnknownV("next of a sequence of unknown length"))]
                    q = self.mut(st, v)
                    x = q.segs[0][1]
                    q.segs = q.segs[1:]
                    return [(st, x)]
                return [(st, args[1])] if len(args) > 1 else self.exc(st, "StopIteration", node)
        return [(st, UnknownV("next"))]

    def b_set(self, st, args, kw, node):
        if not args:
            return [(st, self.newlist(st, [], "set"))]
        out = []
        for s, vs in self.known_vals(st, args[0], node):
            if vs is None or isinstance(vs, ExcV):
                out.append((s, vs if vs is not None else UnknownV("set")))
            else:
                out += self.make_set(s, vs, node)
        return out

    b_frozenset = b_set

    def b_dict(self, st, args, kw, node):
        d = {}
        if args:
            v = self.res(st, args[0])
            if isinstance(v, Ref) and isinstance(self.rec(st, v), Dct):
                d.update(self.rec(st, v).d)
            else:
                out = []
                for s, vs in self.known_vals(st, v, node):
                    if vs is None or isinstance(vs, ExcV):
                        out.append((s, vs or UnknownV("dict")))
                        continue
                    d2 = {}
                    for p in vs:
                        for s2, ab in self.unpack(s, p, 2, node):
                            if not isinstance(ab, ExcV):
                                d2[self.key(s2, ab[0])] = ab[1]
                    d2.update({Const(k): x for k, x in kw.items()})
                    out.append((s, self.new(s, Dct(d2), "dict")))
                return out
        d.update({Const(k): x for k, x in kw.items()})
        return [(st, self.new(st, Dct(d), "dict"))]

    def b_reversed(self, st, args, kw, node):
        v = self.res(st, args[0])
        if isinstance(v, Atom) and v.op == "range":
            lo, hi, step = v.args
            if step == Const(1):
                return [(st, atom("range", r_add(hi, Const(1), -1), r_add(lo, Const(1), -1), Const(-1), kind="list"))]
        out = []
        for s, vs in self.known_vals(st, v, node):
            if vs is None:
                segs = self.as_segs(s, v, node)[0][1]
                out.append((s, self.new(s, Lst([(k, x if k == "e" else atom("reversed", x, kind="list")) for k, x in reversed(segs)]), "list")))
            elif isinstance(vs, ExcV):
                out.append((s, vs))
            else:
                out.append((s, SeqV(list(reversed(vs)))))
        return out

    def b_sorted(self, st, args, kw, node):
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        out = []
        for s, vs in self.known_vals(st, args[0], node):
            if vs is None or isinstance(vs, ExcV):
                out.append((s, vs if vs is not None else UnknownV("sorted")))
                continue
            for s2, ks in self._keys(s, vs, key, node):
                if isinstance(ks, ExcV):
                    out.append((s2, ks))
                    continue
                for s3, order in self._sort(s2, list(zip(ks, vs)), rev == TRUE, node):
                    out.append((s3, order if isinstance(order, (ExcV, UnknownV)) else self.newlist(s3, [v for _, v in order])))
        return out

    def _keys(self, st, vs, key, node):
        if key is None or key == NONE:
            return [(st, list(vs))]
        cur = [(st, [])]
        out = []
        for v in vs:
            nxt = []
            for s, acc in cur:
                for s2, k in self.call(s, key, [v], {}, node):
                    if isinstance(k, ExcV):
                        out.append((s2, k))
                    else:
                        nxt.append((s2, acc + [k]))
            cur = nxt
        return out + cur

    def _sort(self, st, items, rev, node):
        cur = [(st, [])]
        out = []
        for it in items:
            todo = [(s, acc, len(acc)) for s, acc in cur]
            nxt = []
            while todo:
                s, acc, i = todo.pop()
                if i == 0:
                    nxt.append((s, [it] + acc))
                    continue
                op = ast.Gt() if rev else ast.Lt()
                for s2, b in self.compare(s, op, it[0], acc[i - 1][0], node):
                    if isinstance(b, (ExcV, UnknownV)):
                        out.append((s2, b))
                    elif b:
                        todo.append((s2, acc, i - 1))
                    else:
                        nxt.append((s2, acc[:i] + [it] + acc[i:]))
            cur = nxt
        return out + cur

    def _minmax(self, st, args, kw, node, less):
        key = kw.get("key", NONE)
        default = kw.get("default")
        out = []
        if len(args) == 1:
            src = self.known_vals(st, args[0], node)
        else:
            src = [(st, list(args))]
        for s, vs in src:
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            if vs is None:
                k = self.key(s, args[0])
                out.append((s, atom("min" if less else "max", k, nullable=default == NONE) if not kw or list(kw) == ["default"] else UnknownV("min")))
                continue
            if not vs:
                out += [(s, default)] if default is not None else self.exc(s, "ValueError", node, "empty sequence")
                continue
            for s2, ks in self._keys(s, vs, key, node):
                if isinstance(ks, ExcV):
                    out.append((s2, ks))
                    continue
                cur = [(s2, ks[0], vs[0])]
                for k, v in zip(ks[1:], vs[1:]):
                    nxt = []
                    for s3, bk, bv in cur:
                        for s4, b in self.compare(s3, ast.Lt() if less else ast.Gt(), k, bk, node):
                            if isinstance(b, (ExcV, UnknownV)):
                                out.append((s4, b))
                            else:
                                nxt.append((s4, k, v) if b else (s4, bk, bv))
                    cur = nxt
                if len(vs) == 1 and False:
                    pass
                out += [(s3, self.res(s3, bv)) for s3, bk, bv in cur]
        return out

    def b_min(self, st, args, kw, node):
        return self._minmax(st, args, kw, node, True)

    def b_max(self, st, args, kw, node):
        return self._minmax(st, args, kw, node, False)

    def b_sum(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", Const(0))
        out = []
        for s, vs in self.known_vals(st, args[0], node):
            if vs is None:
                segs = self.as_segs(s, args[0], node)[0][1]
                if len(segs) == 1 and start == Const(0):
                    out.append((s, atom("sum", segs[0][1])))
                else:
                    out.append((s, UnknownV("sum")))
                continue
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            cur = [(s, start)]
            for v in vs:
                nxt = []
                for s2, acc in cur:
                    for s3, r in self.binop(s2, ast.Add(), acc, v, node):
                        if isinstance(r, ExcV):
                            out.append((s3, r))
                        else:
                            nxt.append((s3, r))
                cur = nxt
            out += cur
        return out

    def b_abs(self, st, args, kw, node):
        out = []
        for s, v in self.denull(st, args[0]):
            if isinstance(v, UnknownV):
                out.append((s, v))
            elif num(v):
                v = self.nb(v)
                if isinstance(v, Const):
                    out.append((s, Const(abs(v.v))))
                else:
                    for s2, neg in self.split_cmp(s, v, "<"):
                        out.append((s2, self.fn(s2, r_neg(v) if neg else v)))
            elif isinstance(v, Ref) and isinstance(self.rec(s, v), Obj):
                out += self.call_method(s, v, "__abs__", [], {}, node)
            else:
                out += self.exc(s, "TypeError", node, "abs(%s)" % show(v))
        return out

    def b_round(self, st, args, kw, node):
        out = []
        for s, v in self.denull(st, args[0]):
            if isinstance(v, UnknownV):
                out.append((s, v))
                continue
            if not num(v):
                out += self.exc(s, "TypeError", node, "round(%s)" % show(v))
                continue
            v = self.nb(v)
            if isinf_const(v) or isnan_const(v):
                out += self.exc(s, "OverflowError", node, "round of infinity")
            elif len(args) > 1 and args[1] != NONE:
                if isinstance(v, Const) and isinstance(args[1], Const):
                    out.append((s, cfrac(round(Fraction(v.v), args[1].v))))
                else:
                    out.append((s, atom("round", v, self.key(s, args[1]))))
            elif isinstance(v, Const):
                out.append((s, Const(round(Fraction(v.v)))))
            elif is_int_value(v):
                out.append((s, v))
            else:
                out.append((s, atom("round", v, isint=True)))
        return out

    def b_int(self, st, args, kw, node):
        if not args:
            return [(st, Const(0))]
        out = []
        for s, v in self.denull(st, args[0]):
            if isinstance(v, UnknownV):
                out.append((s, v))
            elif isinstance(v, Const) and isinstance(v.v, str):
                try:
                    out.append((s, Const(int(v.v))))
                except ValueError:
                    out += self.exc(s, "ValueError", node, "int(%r)" % v.v)
            elif isinstance(v, Atom) and v.kind in ("str", "obj"):
                out.append((s, atom("int", v, isint=True)))
            elif not num(v):
                out += self.exc(s, "TypeError", node, "int(%s)" % show(v))
            elif isinf_const(v) or isnan_const(v):
                out += self.exc(s, "OverflowError", node, "int of infinity")
            elif isinstance(v, Const):
                out.append((s, Const(int(v.v))))
            elif is_int_value(v):
                out.append((s, v))
            else:
                for s2, neg in self.split_cmp(s, v, "<"):
                    out += self.ceils(s2, self.fn(s2, v)) if neg else self.floors(s2, self.fn(s2, v))
        return out

    def b_float(self, st, args, kw, node):
        if not args:
            return [(st, Const(0))]
        out = []
        for s, v in self.denull(st, args[0]):
            if isinstance(v, Const) and isinstance(v.v, str):
                try:
                    out.append((s, cfrac(float(v.v))))
                except ValueError:
                    out += self.exc(s, "ValueError", node, "float")
            elif num(v) or isinstance(v, UnknownV):
                out.append((s, self.nb(v)))
            elif isinstance(v, Atom):
                out.append((s, atom("float", v)))
            else:
                out += self.exc(s, "TypeError", node, "float(%s)" % show(v))
        return out

    def b_bool(self, st, args, kw, node):
        if not args:
            return [(st, FALSE)]
        return [(s, Const(b) if isinstance(b, bool) else b) for s, b in self.truth(st, args[0], node)]

    def b_str(self, st, args, kw, node):
        if not args:
            return [(st, Const(""))]
        v = self.res(st, args[0])
        if isinstance(v, Const) and isinstance(v.v, (str, int)) or v == NONE:
            return [(st, Const(str(v.v)))]
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj):
            for m in ("__str__", "__repr__"):
                k, mem = self.p.lookup(self.rec(st, v).cls, m)
                if mem is not None:
                    return self.call_method(st, v, m, [], {}, node)
        return [(st, atom("str", self.key(st, v), kind="str"))]

    def b_repr(self, st, args, kw, node):
        return self.b_str(st, args, kw, node)

    def b_print(self, st, args, kw, node):
        return [(st, NONE)]

    def b_id(self, st, args, kw, node):
        return [(st, atom("id", self.key(st, args[0]), isint=True))]

    def b_hash(self, st, args, kw, node):
        return [(st, atom("hash", self.key(st, args[0]), isint=True))]

    def b_pow(self, st, args, kw, node):
        return self.binop(st, ast.Pow(), args[0], args[1], node)

    def b_divmod(self, st, args, kw, node):
        out = []
        for s, q in self.binop(st, ast.FloorDiv(), args[0], args[1], node):
            if isinstance(q, ExcV):
                out.append((s, q))
                continue
            for s2, r in self.binop(s, ast.Mod(), args[0], args[1], node):
                out.append((s2, r if isinstance(r, ExcV) else TupleV([q, r])))
        return out

    def b_callable(self, st, args, kw, node):
        v = self.res(st, args[0])
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj):
            k, mem = self.p.lookup(self.rec(st, v).cls, "__call__")
            return [(st, Const(mem is not None))]
        if isinstance(v, (FuncV, BoundV, ClassV, OpM, ExtV)):
            return [(st, TRUE)]
        if isinstance(v, UnknownV):
            return [(st, v)]
        return [(st, Const(isinstance(v, Atom) and v.kind == "func"))]

    def b_any(self, st, args, kw, node, stop=True):
        if self.is_gen(st, self.res(st, args[0])):
            return self.any_of(st, self.res(st, args[0]), stop, node)
        out = []
        for s, vs in self.known_vals(st, args[0], node):
            if vs is None or isinstance(vs, ExcV):
                out.append((s, vs if vs is not None else UnknownV("any")))
                continue
            cur = [s]
            for v in vs:
                nxt = []
                for s2 in cur:
                    for s3, b in self.truth(s2, v, node):
                        if isinstance(b, ExcV):
                            out.append((s3, b))
                        elif b == stop:
                            out.append((s3, Const(stop)))
                        else:
                            nxt.append(s3)
                cur = nxt
            out += [(s2, Const(not stop)) for s2 in cur]
        return out

    def b_all(self, st, args, kw, node):
        return self.b_any(st, args, kw, node, stop=False)

    def b_isinstance(self, st, args, kw, node):
        v, c = self.res(st, args[0]), self.res(st, args[1])
        cs = list(c.items) if isinstance(c, TupleV) else [c]
        out = []
        for s, x in self.denull(st, v):
            if isinstance(x, UnknownV):
                out.append((s, x))
                continue
            out.append((s, Const(any(self.isinst(s, x, k) for k in cs))))
        return out

    def isinst(self, st, v, c):
        if isinstance(v, ExcObj):
            return exc_is(v.name, self._exc_name(c))
        if isinstance(c, ClassV):
            if isinstance(v, NTupleV):
                return v.info is not None and c.info in self.p.mro(v.info)
            if isinstance(v, Ref) and isinstance(self.rec(st, v), Obj):
                return c.info in self.p.mro(self.rec(st, v).cls)
            return False
        n = c.name.split(".")[-1] if isinstance(c, ExtV) else "?"
        if n == "object":
            return True
        if num(v):
            isb = isinstance(v, Const) and isinstance(v.v, bool) or isinstance(v, Atom) and v.kind == "bool"
            if n == "bool":
                return isb
            if n in ("Number", "Real", "Complex"):
                return True
            if n == "int" or n == "Integral":
                return isb or is_int_value(v)
            if n == "float":
                return not isb and (isinstance(v, Const) and isinstance(v.v, (float, Fraction)) or not is_int_value(v))
            return False
        if isinstance(v, Const):
            return isinstance(v.v, str) and n in ("str", "Sequence", "Iterable", "Collection", "Hashable")
        if self.is_ival(v):
            return n in ("Interval", "Sequence", "Iterable", "Sized", "Collection")
        if isinstance(v, TupleV):
            return n in ("tuple", "Sequence", "Iterable", "Sized", "Collection")
        if isinstance(v, SeqV):
            return n in ("Iterable", "Iterator")
        if isinstance(v, (FuncV, BoundV, OpM)) or isinstance(v, Atom) and v.kind == "func":
            return n in ("Callable", "FunctionType", "MethodType")
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Lst):
                if r.kind == "set":
                    return n in ("set", "Set", "Iterable", "Sized", "Collection", "MutableSet")
                return n in ("list", "Sequence", "Iterable", "Sized", "Collection", "MutableSequence")
            if isinstance(r, Dct):
                return n in ("dict", "Mapping", "Iterable", "Sized", "MutableMapping", "Collection")
            if isinstance(r, Obj):
                for k in self.p.mro(r.cls):
                    for b in k.base_exprs:
                        bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ""
                        if bn == n:
                            return True
                if n == "Iterable":
                    return self.p.lookup(r.cls, "__iter__")[1] is not None
                if n == "Callable":
                    return self.p.lookup(r.cls, "__call__")[1] is not None
            return False
        if isinstance(v, Atom):
            if v.kind == "list":
                return n in ("list", "Sequence", "Iterable", "Sized")
            if v.kind == "duration":
                return n == "Duration"
            if v.kind == "str":
                return n in ("str", "Sequence", "Iterable")
        if isinstance(v, ExcObj):
            return exc_is(v.name, n)
        if isinstance(v, ClassV):
            return n == "type"
        return False

    def b_issubclass(self, st, args, kw, node):
        a, b = args
        bs = list(b.items) if isinstance(b, TupleV) else [b]
        if isinstance(a, ClassV):
            return [(st, Const(any(isinstance(x, ClassV) and x.info in self.p.mro(a.info) for x in bs)))]
        return [(st, UnknownV("issubclass"))]

    def b_type(self, st, args, kw, node):
        v = self.res(st, args[0])
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Obj):
                return [(st, ClassV(r.cls))]
            return [(st, ExtV("dict" if isinstance(r, Dct) else r.kind))]
        out = []
        for s, x in self.denull(st, v):
            if isinstance(x, UnknownV):
                out.append((s, x))
            elif num(x):
                if isinstance(x, Const) and isinstance(x.v, bool) or isinstance(x, Atom) and x.kind == "bool":
                    out.append((s, ExtV("bool")))
                else:
                    out.append((s, ExtV("int" if is_int_value(x) else "float")))
            elif self.is_ival(x):
                out.append((s, ExtV("intervalpy.Interval")))
            elif isinstance(x, TupleV):
                out.append((s, ExtV("tuple")))
            elif isinstance(x, Const):
                out.append((s, ExtV("NoneType" if x.v is None else type(x.v).__name__)))
            else:
                out.append((s, atom("typeof", self.key(s, x), kind="type")))
        return out

    def b_getattr(self, st, args, kw, node):
        n = self.res(st, args[1])
        if not isinstance(n, Const):
            return [(st, UnknownV("getattr"))]
        out = []
        for s, v in self.getattr(st, args[0], n.v, node):
            if len(args) > 2 and (isinstance(v, ExcV) and v.exc.name == "AttributeError" or self.no_such(v)):
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out

    def b_hasattr(self, st, args, kw, node):
        n = self.res(st, args[1])
        if not isinstance(n, Const):
            return [(st, UnknownV("hasattr"))]
        out = []
        for s, v in self.getattr(st, args[0], n.v, node):
            if isinstance(v, UnknownV):
                out.append((s, v))
            else:
                out.append((s, Const(not (isinstance(v, ExcV) and v.exc.name == "AttributeError" or self.no_such(v)))))
        return out

    def no_such(self, v):
        """a method the engine would model on a value that has none"""
        if not isinstance(v, OpM):
            return False
        o = v.recv
        if isinstance(o, NdV):
            return False
        if isinstance(o, TupleV):
            return not hasattr(tuple, v.name)
        if isinstance(o, SeqV):
            return v.name not in ("__iter__", "__next__")
        if isinstance(o, Const) and isinstance(o.v, str):
            return not hasattr(str, v.name)
        if isinstance(o, (FuncV, BoundV)):
            return not hasattr(self.no_such, v.name)
        return False

    def b_setattr(self, st, args, kw, node):
        n = self.res(st, args[1])
        if not isinstance(n, Const):
            self.taint(st, "setattr")
            return [(st, NONE)]
        return [(s, e if e is not None else NONE) for s, e in self.setattr(st, args[0], n.v, args[2], node)]

    def b_delattr(self, st, args, kw, node):
        n = self.res(st, args[1])
        o = self.res(st, args[0])
        if not isinstance(n, Const) or not (isinstance(o, Ref) and isinstance(self.rec(st, o), Obj)):
            self.taint(st, "delattr")
            return [(st, NONE)]
        if n.v not in self.rec(st, o).f:
            return self.exc(st, "AttributeError", node, n.v)
        self.mut(st, o).f.pop(n.v)
        return [(st, NONE)]

    def b_vars(self, st, args, kw, node):
        return [(st, OpM(args[0], "__dict__"))]

    def b_super(self, st, args, kw, node):
        if len(args) == 2 and isinstance(args[0], ClassV):
            return [(st, SuperV(args[0].info, args[1]))]
        return [(st, UnknownV("super"))]

    def b_object(self, st, args, kw, node):
        return [(st, fresh("object", kind="obj"))]

    # ------------------------------------------------ methods of built-ins
    def call_opm(self, st, f, args, kw, node):
        o, name = f.recv, f.name
        if name == "__weakref__":
            return [(st, o)]
        if name == "__poly__" and len(args) == 1:
            return self.call_poly(st, o, args, node)
        if name == "__identity__":
            return [(st, args[0])]
        if name == "__wraps__":
            g = args[0]
            if isinstance(g, FuncV):
                c = FuncV(g.node, g.env, g.mod, g.cls, g.kind, g.defaults, g.kwdefaults, g.name)
                c.wrapped = o
                return [(st, c)]
            return [(st, g)]
        if name == "__itemgetter__":
            return self.getitem(st, args[0], o, node)
        if name in ("__itemgetters__", "__attrgetters__"):
            cur, out = [(st, [])], []
            for k in o.items:
                nxt = []
                for s, acc in cur:
                    for s2, v in (self.getitem(s, args[0], k, node) if name == "__itemgetters__" else self.call_opm(s, OpM(k, "__attrgetter__"), args, {}, node)):
                        if isinstance(v, ExcV):
                            out.append((s2, v))
                        else:
                            nxt.append((s2, acc + [v]))
                cur = nxt
            return out + [(s, TupleV(acc)) for s, acc in cur]
        if name == "__attrgetter__":
            cur, out = [(st, args[0])], []
            for part in o.v.split("."):
                nxt = []
                for s, v in cur:
                    for s2, w in self.getattr(s, v, part, node):
                        if isinstance(w, ExcV):
                            out.append((s2, w))
                        else:
                            nxt.append((s2, w))
                cur = nxt
            return out + cur
        if name == "__methodcaller__":
            m, a, k = o.items
            return self.call_method(st, args[0], m.v, list(a.items), {c.v: v for c, v in self.rec(st, k).d.items()}, node)
        if name == "__cmpmaker__":
            return [(st, OpM(TupleV([o, args[0]]), "__cmpkey__"))]
        if name == "__cacher__":
            return [(st, OpM(TupleV([args[0], self.new(st, Dct({}), "dict")]), "__cached__"))]
        if name == "__cached__":
            return self.cached_call(st, o, args, kw, node)
        if name == "__ctxmgr__":
            out = []
            for s, g in self.call(st, o, args, kw, node):
                out.append((s, OpM(g, "__ctx__") if self.is_gen(s, g) else g if isinstance(g, ExcV) else self.unk(s, "context manager")))
            return out
        if name == "__namedtuple__":
            fs = [c.v for c in o.items[1:]]
            fields = [(f, None, None) for f in fs]
            return [(s, vs if isinstance(vs, ExcV) else NTupleV([vs[f] for f in fs], tuple(fs), o.items[0].v)) for s, vs in self.build_fields(st, None, fields, args, kw, node)]
        if isinstance(o, NTupleV) and name == "_replace":
            d = dict(zip(o.fields, o.items))
            if any(k not in d for k in kw):
                return self.exc(st, "ValueError", node, "_replace")
            d.update(kw)
            return [(st, NTupleV([d[f] for f in o.fields], o.fields, o.cname, o.info))]
        if isinstance(o, NTupleV) and name == "_asdict":
            return [(st, self.new(st, Dct({Const(f): v for f, v in zip(o.fields, o.items)}), "dict"))]
        if name == "__partial__":
            fn, a, k = o.items
            kk = {c.v: v for c, v in self.rec(st, k).d.items()}
            kk.update(kw)
            return self.call(st, fn, list(a.items) + list(args), kk, node)
        if isinstance(o, SuperV) or isinstance(o, ClassV):
            if name in ("__init__", "__init_subclass__", "__setattr__", "__del__"):
                return [(st, NONE)]
            if name in ("__repr__", "__str__"):
                return [(st, atom("repr", self.key(st, o.selfv) if isinstance(o, SuperV) else o, kind="str"))]
            if name == "__eq__" and isinstance(o, SuperV):
                return [(s, Const(b) if isinstance(b, bool) else b) for s, b in self.identical(st, o.selfv, args[0])]
            if isinstance(o, SuperV):
                return self.exc(st, "AttributeError", node, "super has no attribute %s" % name)
            return [(st, UnknownV(name))]
        o = self.res(st, o)
        if self.is_ival(o):
            return self.ival_method(st, o, name, args, kw, node)
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Lst):
                if r.kind == "set":
                    return self.set_method(st, o, name, args, kw, node)
                return self.list_method(st, o, name, args, kw, node)
            if isinstance(r, Dct):
                return self.dict_method(st, o, name, args, kw, node)
            if isinstance(r, Obj):
                if name in ("__init__",):
                    return [(st, NONE)]
                if name in ("__repr__", "__str__"):
                    return [(st, atom("repr", o, kind="str"))]
                if name == "__hash__":
                    return [(st, atom("hash", o, isint=True))]
                return [(st, UnknownV(name))]
        if isinstance(o, OpM) and o.name == "__dict__":
            return self.objdict_method(st, o.recv, name, args, kw, node)
        if isinstance(o, (TupleV, SeqV)) or isinstance(o, Atom) and o.kind == "list":
            return self.list_method(st, o, name, args, kw, node)
        if isinstance(o, Const) and isinstance(o.v, str):
            return self.str_method(st, o, name, args, kw, node)
        if isinstance(o, Atom):
            if o.kind == "duration":
                return self.duration_method(st, o, name, args, kw, node)
            if o.kind == "sigparams":
                ps = self.positional(st, o.args[0].args[0])
                vals = [atom("param", Const(i), Const(k), kind="param") for i, k in enumerate(ps)]
                if name == "values":
                    return [(st, SeqV(vals))]
                if name == "items":
                    return [(st, SeqV([TupleV([Const("p%d" % i), v]) for i, v in enumerate(vals)]))]
                if name == "keys":
                    return [(st, SeqV([Const("p%d" % i) for i in range(len(vals))]))]
            if o.kind == "str":
                if name in ("startswith", "endswith"):
                    return self.split_const(st, atom(name, o, *[self.key(st, a) for a in args], kind="bool"))
                return [(st, atom("strm", o, Const(name), *[self.key(st, a) for a in args], kind="str"))]
            if o.kind in NUMKINDS and name == "is_integer":
                return [(s, Const(b)) for s, b in self.split_cmp(st, r_add(o, self.floor(o), -1), "=")]
            if o.kind in NUMKINDS:
                m = {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__truediv__": ast.Div}.get(name)
                if m:
                    return self.binop(st, m(), o, args[0], node)
        if isinstance(o, Rat) and name == "is_integer":
            return [(s, Const(b)) for s, b in self.split_cmp(st, r_add(o, self.floor(o), -1), "=")]
        if isinstance(o, Const) and o.cat() == "num" and name == "is_integer":
            return [(st, Const(float(o.v).is_integer()))]
        if isinstance(o, FuncV) and name == "__call__" or isinstance(o, BoundV) and name == "__call__":
            return self.call(st, o, args, kw, node)
        return [(st, UnknownV("%s()" % name))]

    def split_const(self, st, a):
        return [(s, Const(b)) for s, b in self.split_bool(st, a)]

    DUR_UNITS = {"1s": 1, "1m": 60, "1h": 3600, "1d": 86400, "1 second": 1, "1 minute": 60, "5 minutes": 300, "1 hour": 3600, "1 day": 86400}

    def dur_seconds(self, o):
        """the length of a duration all of whose boundaries are multiples of it"""
        k = o.args[0]
        if isinstance(k, Const) and isinstance(k.v, str):
            return self.DUR_UNITS.get(k.v)
        if isinstance(k, Const) and k.cat() == "num" and k.v in (1, 5, 60, 300, 3600, 86400):
            return int(k.v)
        return None

    def dur_months(self, o):
        """what is known of a duration of a calendar month"""
        k = o.args[0]
        if isinstance(k, Const) and k.v in ("1mo", "1 month"):
            return {"min_seconds": 28 * 86400, "max_seconds": 31 * 86400}
        return None

    def dur_boundary(self, st, S, name, x):
        """floor / ceil / previous / next of a number"""
        q = r_div(x, Const(S))
        rs = self.floors(st, q) if name in ("floor", "next") else self.ceils(st, q)
        d = {"next": 1, "previous": -1}.get(name, 0)
        return [(s, r_mul(r_add(r, Const(d)), Const(S))) for s, r in rs]

    def dur_span(self, st, S, v, start_open, node):
        """the span of an interval, bounded by boundaries"""
        out = []
        if num(v):
            v = self.nb(v)
            a, b = ("previous", "ceil") if start_open else ("floor", "next")
            for s, lo in self.dur_boundary(st, S, a, v):
                for s2, hi in self.dur_boundary(s, S, b, self.fn(s, v)):
                    out += self.ival_make(s2, self.fn(s2, lo), hi, Const(start_open), Const(not start_open), node)
            return out
        for s, p in self.ival_parts(st, v):
            if p is None:
                out.append((s, EMPTY))
                continue
            a, b, so, eo = p
            for s2, point in ([(s, False)] if isinf_const(a) or isinf_const(b) else self.split_cmp(s, r_add(a, b, -1), "=")):
                a2, b2 = self.fn(s2, a), self.fn(s2, b)
                if point:
                    out += self.dur_span(s2, S, a2, start_open, node)
                    continue
                for s3, o in self.truth(s2, so):
                    for s4, c in self.truth(s3, eo):
                        los = [(s4, a2)] if isinf_const(a2) else self.dur_boundary(s4, S, "previous" if start_open and not o else "floor", a2)
                        for s5, lo in los:
                            his = [(s5, b2)] if isinf_const(b2) else self.dur_boundary(s5, S, "next" if not start_open and not c else "ceil", self.fn(s5, b2))
                            for s6, hi in his:
                                out += self.ival_make(s6, self.fn(s6, lo), hi, Const(start_open), Const(not start_open), node)
        return out

    def duration_method(self, st, o, name, args, kw, node):
        S = self.dur_seconds(o)
        if S is not None:
            if name in ("floor", "ceil", "next", "previous"):
                out = []
                for s, x in self.denull(st, args[0]):
                    if num(x) and not isinf_const(x) and not isnan_const(x):
                        out += self.dur_boundary(s, S, name, self.nb(x))
                    elif isinstance(x, UnknownV):
                        out.append((s, x))
                    else:
                        out += self.exc(s, "TypeError", node, "duration.%s(%s)" % (name, show(x)))
                return out
            if name == "step":
                c = self.res(st, args[1] if len(args) > 1 else kw.get("count", Const(1)))
                back = self.res(st, args[2] if len(args) > 2 else kw.get("backward", FALSE))
                if isinstance(c, Const) and isinstance(back, Const):
                    out = []
                    k = int(c.v)
                    b = bool(back.v) != (k < 0)
                    k = abs(k)
                    for s, x in self.denull(st, args[0]):
                        if not num(x) or isinf_const(x) or isnan_const(x):
                            out += self.exc(s, "TypeError", node, "duration.step(%s)" % show(x))
                            continue
                        x = self.nb(x)
                        if k == 0:
                            out.append((s, x))
                            continue
                        for s1, r in self.dur_boundary(s, S, "floor" if b else "ceil", x):
                            for s2, at in self.split_cmp(s1, r_add(self.fn(s1, r), self.fn(s1, x), -1), "="):
                                n = k if at else k - 1
                                out.append((s2, r_add(self.fn(s2, r), Const(S * n), -1 if b else 1)))
                    return out
            if name == "span":
                so = self.res(st, args[1] if len(args) > 1 else kw.get("start_open", FALSE))
                if isinstance(so, Const):
                    out = []
                    for s, x in self.denull(st, args[0]):
                        if num(x):
                            out += self.dur_span(s, S, x, bool(so.v), node)
                            continue
                        for s2, w in self.ival_parse(s, x, node, TRUE):
                            out += [(s2, w)] if isinstance(w, (ExcV, UnknownV)) else self.dur_span(s2, S, w, bool(so.v), node)
                    return out
        if name == "span":
            x = self.res(st, args[0])
            v = atom("span", o, self.key(st, x), *[TupleV((Const(k), self.key(st, v))) for k, v in sorted(kw.items())], kind="interval")
            if isinstance(x, UnknownV):
                return [(st, x)]
            if not (isinstance(x, IvalV) or isinstance(x, Atom) and x.kind == "interval"):
                st.facts = st.facts.with_bool(atom("empty", v, kind="bool"), False)
                return [(st, v)]
            out = []
            for s, p in self.ival_parts(st, x):
                if p is None:
                    out.append((s, EMPTY))
                elif isinf_const(p[0]) and isinf_const(p[1]):
                    out.append((s, x))
                else:
                    f = s.facts.with_bool(atom("empty", v, kind="bool"), False)
                    if f is None:
                        continue
                    for k, w in (("neg_inf", p[0]), ("pos_inf", p[1])):
                        f = f.with_bool(atom(k, v, kind="bool"), isinf_const(w)) if f is not None else None
                    if f is None:
                        continue
                    s.facts = f
                    out.append((s, v))
            return out
        if name in ("next", "previous", "floor", "ceil", "step", "count"):
            out = []
            for s, x in self.denull(st, args[0]):
                if x == NONE:
                    out += self.exc(s, "TypeError", node, "duration.%s(None)" % name)
                    continue
                rest = [self.key(s, a) for a in args[1:]]
                if name == "step":
                    c = args[1] if len(args) > 1 else kw.get("count", Const(1))
                    rest = [self.key(s, c)]
                a = atom("dur." + name, o, self.key(s, x), *rest)
                if name in ("next", "previous", "floor", "ceil") and num(x):
                    d = r_add(a, x, -1) if name in ("previous", "floor") else r_add(x, a, -1)
                    f = s.facts.with_cmp(d, "<" if name in ("next", "previous") else "<=")
                    if f is None:
                        continue
                    s.facts = f
                out.append((s, a))
            return out
        return [(st, atom("dur." + name, o, *[self.key(st, a) for a in args], kind="obj"))]

    def objdict_method(self, st, o, name, args, kw, node):
        if name == "update":
            v = self.res(st, args[0])
            if isinstance(v, OpM) and v.name == "__dict__":
                src = self.rec(st, v.recv).f
                self.mut(st, o).f.update(src)
                return [(st, NONE)]
            if isinstance(v, Ref) and isinstance(self.rec(st, v), Dct):
                self.mut(st, o).f.update({k.v: x for k, x in self.rec(st, v).d.items()})
                return [(st, NONE)]
        r = self.rec(st, o)
        if name in ("items", "keys", "values", "copy"):
            items = [(Const(k), v) for k, v in r.f.items()]
            if name == "items":
                return [(st, SeqV([TupleV(p) for p in items]))]
            if name == "keys":
                return [(st, SeqV([k for k, _ in items]))]
            if name == "values":
                return [(st, SeqV([v for _, v in items]))]
            return [(st, self.new(st, Dct(dict(items)), "dict"))]
        if name == "get":
            k = self.res(st, args[0])
            if isinstance(k, Const):
                return [(st, r.f.get(k.v, args[1] if len(args) > 1 else NONE))]
        self.taint(st, "__dict__.%s" % name)
        return [(st, UnknownV(name))]

    def list_method(self, st, o, name, args, kw, node):
        isref = isinstance(o, Ref)
        if isref and name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
            self.on_write(st, o, name, args, node)
        if name == "append" and isref:
            r = self.mut(st, o)
            r.segs = r.segs + (("e", args[0]),)
            return [(st, NONE)]
        if name == "extend" and isref:
            out = []
            for s, segs in self.as_segs(st, args[0], node):
                if isinstance(segs, ExcV):
                    out.append((s, segs))
                else:
                    r = self.mut(s, o)
                    r.segs = r.segs + tuple(segs)
                    out.append((s, NONE))
            return out
        if name == "insert" and isref:
            if not self.rec(st, o).known():
                if args[0] == Const(0):
                    r = self.mut(st, o)
                    r.segs = (("e", args[1]),) + r.segs
                    return [(st, NONE)]
                self.taint(st, "insert into a sequence of unknown length")
                return [(st, NONE)]
            out = []
            n = len(self.rec(st, o).segs)
            for s, i in self._bound(st, args[0], n, n, node):
                if isinstance(i, ExcV):
                    out.append((s, i))
                    continue
                r = self.mut(s, o)
                segs = list(r.segs)
                segs.insert(i, ("e", args[1]))
                r.segs = tuple(segs)
                out.append((s, NONE))
            return out
        if name == "pop" and isref:
            k = args[0] if args else Const(-1)
            out = []
            for s, v in self.getitem(st, o, k, node):
                if isinstance(v, ExcV):
                    out.append((s, v))
                    continue
                out += [(s2, e if e is not None else v) for s2, e in self.delitem(s, o, k, node)]
            return out
        if name == "appendleft" and isref:
            r = self.mut(st, o)
            r.segs = (("e", args[0]),) + r.segs
            return [(st, NONE)]
        if name == "extendleft" and isref:
            out = []
            for s, vs in self.known_vals(st, args[0], node):
                if vs is None:
                    self.taint(s, "extendleft")
                    out.append((s, NONE))
                elif isinstance(vs, ExcV):
                    out.append((s, vs))
                else:
                    r = self.mut(s, o)
                    r.segs = tuple(("e", v) for v in reversed(vs)) + r.segs
                    out.append((s, NONE))
            return out
        if name == "popleft" and isref:
            return self.list_method(st, o, "pop", [Const(0)], {}, node)
        if name == "clear" and isref:
            self.mut(st, o).segs = ()
            return [(st, NONE)]
        if name in ("remove", "index", "count"):
            out = []
            for s, vs in self.known_vals(st, o, node):
                if vs is None or isinstance(vs, ExcV):
                    if name == "remove":
                        self.taint(s, "remove")
                    out.append((s, UnknownV(name)))
                    continue
                if name == "count":
                    cur = [(s, 0)]
                    for v in vs:
                        nxt = []
                        for s2, c in cur:
                            for s3, e in self.eq(s2, v, args[0], node):
                                nxt.append((s3, c + (e is True)))
                        cur = nxt
                    out += [(s2, Const(c)) for s2, c in cur]
                    continue
                cur = [s]
                for i, v in enumerate(vs):
                    nxt = []
                    for s2 in cur:
                        for s3, e in self.eq(s2, v, args[0], node):
                            if e is True:
                                if name == "remove":
                                    r = self.mut(s3, o)
                                    segs = list(r.segs)
                                    del segs[i]
                                    r.segs = tuple(segs)
                                    out.append((s3, NONE))
                                else:
                                    out.append((s3, Const(i)))
                            elif e is False:
                                nxt.append(s3)
                            else:
                                out.append((s3, e))
                    cur = nxt
                for s2 in cur:
                    out += self.exc(s2, "ValueError", node, "not in list")
            return out
        if name == "copy":
            return self.b_list(st, [o], {}, node)
        if name == "reverse" and isref:
            r = self.mut(st, o)
            r.segs = tuple((k, v if k == "e" else atom("reversed", v, kind="list")) for k, v in reversed(r.segs))
            return [(st, NONE)]
        if name == "sort" and isref:
            out = []
            for s, v in self.b_sorted(st, [o], kw, node):
                if isinstance(v, Ref):
                    self.mut(s, o).segs = self.rec(s, v).segs
                    out.append((s, NONE))
                else:
                    out.append((s, v))
            return out
        if name in ("__len__",):
            return self.b_len(st, [o], {}, node)
        if name == "__iter__":
            return self.b_iter(st, [o], {}, node)
        if name == "__getitem__":
            return self.getitem(st, o, args[0], node)
        return self.exc(st, "AttributeError", node, "list has no attribute %s" % name)

    def set_method(self, st, o, name, args, kw, node):
        if name in ("add", "update"):
            vs = [args[0]]
            if name == "update":
                r = self.known_vals(st, args[0], node)
                if len(r) != 1 or r[0][1] is None:
                    self.taint(st, "set update")
                    return [(st, NONE)]
                vs = r[0][1]
            out = []
            for s, n in self.make_set(st, self.rec(st, o).items() + vs, node):
                self.mut(s, o).segs = self.rec(s, n).segs
                out.append((s, NONE))
            return out
        if name in ("remove", "discard"):
            out = []
            for s, v in self.list_method(st, o, "remove", args, kw, node):
                if isinstance(v, ExcV) and name == "discard":
                    v = NONE
                out.append((s, v))
            return out
        if name == "clear":
            self.mut(st, o).segs = ()
            return [(st, NONE)]
        if name == "copy":
            return [(st, self.new(st, self.rec(st, o).copy(), "set"))]
        ops = {"union": "or", "intersection": "and", "difference": "sub", "symmetric_difference": "xor"}
        if name in ops and len(args) == 1:
            out = []
            for s, v in self.b_set(st, args, {}, node):
                out += self.set_op(s, ops[name], o, v, node) if self.is_set(s, v) else [(s, v)]
            return out
        if name in ("issubset", "issuperset"):
            out = []
            for s, v in self.b_set(st, args, {}, node):
                out += [(s2, Const(b) if isinstance(b, bool) else b) for s2, b in self.order(s, ast.LtE() if name == "issubset" else ast.GtE(), o, v, node)] if self.is_set(s, v) else [(s, v)]
            return out
        self.taint(st, "set." + name)
        return [(st, UnknownV("set." + name))]

    def dict_method(self, st, o, name, args, kw, node):
        r = self.rec(st, o)
        if r.open and name in ("items", "keys", "values", "get", "pop"):
            return [(st, UnknownV("open mapping"))]
        if name == "items":
            return [(st, SeqV([TupleV([k, v]) for k, v in r.d.items()]))]
        if name == "keys":
            return [(st, SeqV(list(r.d)))]
        if name == "values":
            return [(st, SeqV(list(r.d.values())))]
        if name in ("get", "pop", "setdefault"):
            k = self.key(st, args[0])
            out = []
            for s, q in self.dict_find(st, r, k):
                if isinstance(q, UnknownV):
                    if name != "get":
                        self.taint(s, "an entry of a mapping under an unknown key")
                    out.append((s, UnknownV("mapping")))
                elif q is not None:
                    v = self.rec(s, o).d[q]
                    if name == "pop":
                        self.mut(s, o).d.pop(q)
                    out.append((s, self.res(s, v)))
                elif name == "setdefault":
                    v = args[1] if len(args) > 1 else NONE
                    self.mut(s, o).d[k] = v
                    out.append((s, v))
                elif len(args) > 1:
                    out.append((s, args[1]))
                elif name == "get":
                    out.append((s, NONE))
                else:
                    out += self.exc(s, "KeyError", node)
            return out
        if name == "update":
            m = self.mut(st, o)
            if args:
                v = self.res(st, args[0])
                if isinstance(v, Ref) and isinstance(self.rec(st, v), Dct):
                    m.d.update(self.rec(st, v).d)
                else:
                    self.taint(st, "dict.update")
            m.d.update({Const(k): v for k, v in kw.items()})
            return [(st, NONE)]
        if name == "clear":
            self.mut(st, o).d = {}
            return [(st, NONE)]
        if name == "copy":
            return [(st, self.new(st, r.copy(), "dict"))]
        return [(st, UnknownV("dict." + name))]

    def str_method(self, st, o, name, args, kw, node):
        vals = [self.res(st, a) for a in args]
        if name == "join":
            out = []
            for s, vs in self.known_vals(st, args[0], node):
                if isinstance(vs, list) and all(isinstance(v, Const) and isinstance(v.v, str) for v in vs):
                    out.append((s, Const(o.v.join(v.v for v in vs))))
                else:
                    out.append((s, atom("join", o, self.key(s, args[0]), kind="str")))
            return out
        kws = {k: self.res(st, v) for k, v in kw.items()}
        if all(isinstance(v, Const) and not isinstance(v.v, Fraction) for v in vals + list(kws.values())):
            try:
                r = getattr(o.v, name)(*[v.v for v in vals], **{k: v.v for k, v in kws.items()})
                if isinstance(r, (str, int, bool)):
                    return [(st, Const(r))]
                if isinstance(r, (list, tuple)):
                    return [(st, self.newlist(st, [Const(x) for x in r]))]
            except AttributeError:
                return self.exc(st, "AttributeError", node, "str.%s" % name)
            except Exception:
                pass
        return [(st, atom("strm", o, Const(name), *[self.key(st, a) for a in args], kind="str"))]
