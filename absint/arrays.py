"""Transfer functions of the numpy operations the analysed code uses.

An array of known size is a tuple of value numbers (1-d) or of rows (2-d).
Least squares are modelled by their normal equations, which they solve exactly
where the design has full rank; a design that may lack rank, and every
operation not listed, is unknown.
"""
import ast
from .engine import *
from .values import *


class NdV(TupleV):
    """an array of known size"""
    __slots__ = ()

    def map_parts(self, f):
        return NdV(f(x) for x in self.items)


ALL = OpM(TupleV((Const(None), Const(None), Const(None))), "__slice__")


class Arrays:

    def matrix(self, st, v, node):
        """[(state, NdV | number | None)]"""
        v = self.res(st, v)
        if isinstance(v, NdV):
            return [(st, v)]
        if not self.is_listish(st, v):
            v = self.nb(v) if isinstance(v, Const) and isinstance(v.v, bool) else v
            return [(st, v if to_rat(v) is not None and not (isinstance(v, Atom) and v.nullable and st.facts.null(v) is not False) else None)]
        out = []
        for s, vs in self.known_vals(st, v, node):
            if vs is None or isinstance(vs, ExcV):
                out.append((s, None))
                continue
            cur = [(s, [])]
            for x in vs:
                nxt = []
                for s2, acc in cur:
                    for s3, w in self.matrix(s2, x, node):
                        nxt.append((s3, None if acc is None or w is None else acc + [w]))
                cur = nxt
            for s2, acc in cur:
                if acc is not None and len({len(x.items) if isinstance(x, NdV) else -1 for x in acc}) > 1:
                    acc = None
                out.append((s2, None if acc is None else NdV(acc)))
        return out

    def transposed(self, v):
        if v.items and isinstance(v.items[0], NdV):
            return NdV(NdV(c) for c in zip(*[r.items for r in v.items]))
        return v

    def nd_attr(self, st, o, name, node):
        if name == "T":
            return [(st, self.transposed(o))]
        if name == "shape":
            d = [Const(len(o.items))]
            if o.items and isinstance(o.items[0], NdV):
                d.append(Const(len(o.items[0].items)))
            return [(st, TupleV(d))]
        if name == "size":
            n = len(o.items)
            if o.items and isinstance(o.items[0], NdV):
                n *= len(o.items[0].items)
            return [(st, Const(n))]
        return [(st, OpM(o, name))]

    def nd_item(self, st, o, k, node):
        """o[i, j] with whole slices or constants"""
        if not (isinstance(k, TupleV) and len(k.items) == 2 and o.items and isinstance(o.items[0], NdV)):
            return [(st, UnknownV("array item"))]
        i, j = [self.res(st, x) for x in k.items]
        n, m = len(o.items), len(o.items[0].items)

        def pick(q, size):
            if isinstance(q, OpM) and q.name == "__slice__":
                if all(isinstance(b, Const) and (b.v is None or isinstance(b.v, int)) for b in q.recv.items):
                    return list(range(size))[slice(*[b.v for b in q.recv.items])], True
                return None, True
            if isinstance(q, Const) and isinstance(q.v, int) and not isinstance(q.v, bool):
                return ([q.v % size] if -size <= q.v < size else "out"), False
            return None, False
        (a, wa), (b, wb) = pick(i, n), pick(j, m)
        if a == "out" or b == "out":
            return self.exc(st, "IndexError", node, "array index out of bounds")
        if a is None or b is None:
            return [(st, UnknownV("array item"))]
        rows = [[o.items[p].items[q] for q in b] for p in a]
        if wa and wb:
            return [(st, NdV(NdV(r) for r in rows))]
        if wa:
            return [(st, NdV(r[0] for r in rows))]
        if wb:
            return [(st, NdV(rows[0]))]
        return [(st, rows[0][0])]

    def nd_binop(self, st, op, a, b, node):
        """elementwise"""
        if isinstance(op, ast.MatMult):
            return [(st, UnknownV("matrix product"))]
        n = len((a if isinstance(a, NdV) else b).items)
        xs = a.items if isinstance(a, NdV) else [a] * n
        ys = b.items if isinstance(b, NdV) else [b] * n
        if len(xs) != len(ys) or (not isinstance(a, NdV) and to_rat(a) is None) or (not isinstance(b, NdV) and to_rat(b) is None):
            return [(st, UnknownV("array operation"))]
        cur = [(st, [])]
        for x, y in zip(xs, ys):
            nxt = []
            for s, acc in cur:
                for s2, v in self.binop(s, op, x, y, node):
                    if isinstance(v, (ExcV, UnknownV)):
                        return [(st, UnknownV("array operation"))]
                    nxt.append((s2, acc + [v]))
            cur = nxt
        return [(s, NdV(acc)) for s, acc in cur]

    def total(self, xs):
        t = Const(0)
        for x in xs:
            t = r_add(t, x)
        return t

    def rank2(self, st, xs):
        """are two of the numbers known to differ"""
        for i in range(len(xs)):
            for j in range(i):
                if st.facts.cmp(r_add(xs[i], xs[j], -1), "=") is False:
                    return True
        return False

    def solve(self, st, rows, ys):
        """least squares by the normal equations, None where the rank is unknown"""
        k = len(rows[0])
        if k == 1:
            d = self.total(r_mul(r[0], r[0]) for r in rows)
            if st.facts.cmp(d, "=") is not False:
                return None
            return [r_div(self.total(r_mul(r[0], y) for r, y in zip(rows, ys)), d)]
        if k != 2:
            return None
        cols = list(zip(*rows))
        # of full rank: one column is a constant other than 0, the other varies
        flat = [c for c in cols if all(x == c[0] for x in c) and st.facts.cmp(c[0], "=") is False]
        if len(flat) != 1 or not self.rank2(st, [c for c in cols if c is not flat[0]][0]):
            return None
        a = self.total(r_mul(x, x) for x in cols[0])
        b = self.total(r_mul(x, y) for x, y in zip(*cols))
        d = self.total(r_mul(x, x) for x in cols[1])
        p = self.total(r_mul(x, y) for x, y in zip(cols[0], ys))
        q = self.total(r_mul(x, y) for x, y in zip(cols[1], ys))
        det = r_add(r_mul(a, d), r_mul(b, b), -1)
        if isinstance(det, Const) and det.v == 0:
            return None
        return [r_div(r_add(r_mul(p, d), r_mul(q, b), -1), det), r_div(r_add(r_mul(a, q), r_mul(b, p), -1), det)]

    def call_numpy(self, st, name, args, kw, node):
        try:
            return self._numpy(st, name, args, kw, node)
        except TooBig:
            return [(st, UnknownV("expression too large"))]

    def _numpy(self, st, name, args, kw, node):
        if name == "poly1d" and len(args) == 1 and not kw:
            return [(s, UnknownV("poly1d") if c is None or not isinstance(c, NdV) else OpM(c, "__poly__")) for s, c in self.matrix(st, args[0], node)]
        if name in ("abs", "absolute", "fabs", "sqrt", "floor", "ceil", "log", "exp", "isnan", "isinf", "isfinite") and len(args) == 1 and not kw:
            if name in ("abs", "absolute", "fabs"):
                return self.b_abs(st, args, kw, node)
            return self.call_math(st, name, args, node)
        if name in ("ones", "zeros") and len(args) == 1:
            n = self.res(st, args[0])
            if isinstance(n, Const) and isinstance(n.v, int) and n.v < 64:
                return [(st, NdV([Const(1 if name == "ones" else 0)] * n.v))]
            return [(st, UnknownV(name))]
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in cur:
                for s2, v in self.matrix(s, a, node):
                    nxt.append((s2, acc + [v]))
            cur = nxt
        out = []
        for s, vs in cur:
            out.append((s, self._array(s, name, vs, kw)))
        return out

    def _array(self, st, name, vs, kw):
        bad = UnknownV("numpy." + name)
        if any(v is None for v in vs) or (kw and not (name == "linalg.lstsq" and set(kw) <= {"rcond"}) and not (name == "polyfit" and set(kw) <= {"deg"})
                                         and not (name in ("array", "asarray") and set(kw) <= {"dtype"})):
            return bad
        two = vs and isinstance(vs[0], NdV) and vs[0].items and isinstance(vs[0].items[0], NdV)
        if name in ("array", "asarray") and len(vs) == 1:
            return vs[0]
        if name == "vstack" and len(vs) == 1 and two:
            return vs[0]
        if name == "transpose" and len(vs) == 1 and isinstance(vs[0], NdV):
            return self.transposed(vs[0])
        if name in ("column_stack",) and len(vs) == 1 and two:
            return self.transposed(vs[0])
        if name == "ones_like" and len(vs) == 1 and isinstance(vs[0], NdV) and not two:
            return NdV([Const(1)] * len(vs[0].items))
        if name in ("sum", "mean") and len(vs) == 1 and isinstance(vs[0], NdV) and not two and vs[0].items:
            t = self.total(vs[0].items)
            return t if name == "sum" else r_div(t, Const(len(vs[0].items)))
        if name == "dot" and len(vs) == 2 and not two and all(isinstance(v, NdV) for v in vs) and len(vs[0].items) == len(vs[1].items):
            return self.total(r_mul(x, y) for x, y in zip(vs[0].items, vs[1].items))
        if name == "linalg.lstsq" and len(vs) == 2 and two and isinstance(vs[1], NdV) and len(vs[1].items) == len(vs[0].items):
            w = self.solve(st, [r.items for r in vs[0].items], vs[1].items)
            if w is None:
                return bad
            return TupleV([NdV(w), UnknownV("residuals"), UnknownV("rank"), UnknownV("singular values")])
        if name == "polyfit" and isinstance(vs[0], NdV) and isinstance(vs[1], NdV) and len(vs[0].items) == len(vs[1].items):
            deg = vs[2] if len(vs) > 2 else kw.get("deg")
            if deg == Const(1):
                w = self.solve(st, [(x, Const(1)) for x in vs[0].items], vs[1].items)
            elif deg == Const(0):
                w = self.solve(st, [(Const(1),) for x in vs[0].items], vs[1].items)
            else:
                w = None
            return bad if w is None else NdV(w)
        if name == "polyval" and len(vs) == 2 and isinstance(vs[0], NdV) and not isinstance(vs[1], NdV):
            return self.poly(vs[0], vs[1])
        return bad

    def poly(self, c, x):
        v = Const(0)
        for k in c.items:
            v = r_add(r_mul(v, x), k)
        return v

    def call_poly(self, st, c, args, node):
        out = []
        for s, x in self.matrix(st, args[0], node):
            out.append((s, self.poly(c, x) if x is not None and not isinstance(x, NdV) else UnknownV("poly1d")))
        return out
