"""Path facts: nullness, booleans and linear (in)equalities between value numbers.

The numeric part is the polyhedral domain: a conjunction of linear constraints
over monomials, emptiness decided by elimination.  Facts only ever prune paths
or refine values; a fact the domain cannot represent is dropped.
"""
from fractions import Fraction
import math
from .terms import *

_FM_CACHE = {}
_WHOLE = {}


def _poly_of(v):
    """linear form (a Poly) of a numeric value; quotients become one variable"""
    n, d = to_rat(v)
    if d == P1:
        return n
    return Poly({((atom("quot", Rat(n, d) if not d.is_const() else mk(n, d)), 1),): Fraction(1)})


def _axioms(monos):
    """constraints that hold of the atoms themselves: list of (poly, op), poly op 0"""
    out = []
    for m in monos:
        for a, _ in m:
            if a.op == "len":
                out.append((Poly({((a, 1),): Fraction(-1)}), "<="))
            elif a.op == "abs":
                out.append((Poly({((a, 1),): Fraction(-1)}), "<="))
            elif a.op == "floor":
                # floor(t) <= t < floor(t)+1
                t = _poly_of(a.args[0])
                f = Poly({((a, 1),): Fraction(1)})
                out.append((padd(f, t, -1), "<="))
                out.append((padd(padd(t, f, -1), P1, -1), "<"))
            elif a.meta == "positive":
                out.append((Poly({((a, 1),): Fraction(-1)}), "<"))
            elif a.meta == "nonneg":
                out.append((Poly({((a, 1),): Fraction(-1)}), "<="))
        # squares
        if m and all(e % 2 == 0 for _, e in m):
            out.append((Poly({m: Fraction(-1)}), "<="))
    return out


def _atom_axioms(a, val):
    """what holds of a value standing for the atom a: list of (value, op)"""
    if a.op == "floor":
        e = a.args[0]
        return [(r_add(val, e, -1), "<="), (r_add(r_add(e, val, -1), Const(1), -1), "<")]
    if a.op in ("len", "abs") or a.meta == "nonneg":
        return [(r_neg(val), "<=")]
    if a.meta == "positive":
        return [(r_neg(val), "<")]
    return []


def _tighten(p, op):
    if op == "=" or not p.t or p.is_const() or not all(a.isint for m in p.t for a, _ in m):
        return p, op
    den = math.lcm(*[c.denominator for m, c in p.t.items() if m])
    num = math.gcd(*[int(c * den) for m, c in p.t.items() if m])
    k = Fraction(den, num)
    c0 = p.t.get((), Fraction(0)) * k
    if k == 1 and op == "<=" and c0.denominator == 1:
        return p, op
    # whole part of the left side: L + c0 < 0 with L a whole number
    q = {m: c * k for m, c in p.t.items() if m}
    if op == "<":
        b = Fraction(math.floor(c0)) + 1
    else:
        b = Fraction(math.ceil(c0))
    if b:
        q[()] = b
    return Poly(q), "<="


def _infeasible(cons):
    """cons: list of (poly, '<'|'<='|'='); True when certainly empty"""
    cons = [_tighten(p, op) for p, op in cons]
    key = frozenset(cons)
    r = _FM_CACHE.get(key)
    if r is None:
        r = _fm(list(key))
        if len(_FM_CACHE) > 200000:
            _FM_CACHE.clear()
        _FM_CACHE[key] = r
    return r


def _fm(cons):
    monos = {m for p, _ in cons for m in p.t if m}
    seen = set()
    todo = monos
    for _ in range(3):
        new = _axioms(todo - seen)
        seen |= todo
        new = [c for c in map(lambda z: _tighten(*z), new) if c not in cons]
        cons = cons + new
        todo = {m for p, _ in new for m in p.t if m} - seen
        if not todo:
            break
    if any(len(m) > 1 for m in seen):
        cons = cons + _signs(cons)
    # equalities by substitution
    ineq = []
    eqs = [p for p, op in cons if op == "="]
    ineq = [(p, op) for p, op in cons if op != "="]
    while eqs:
        p = eqs.pop()
        vs = [m for m in p.t if m]
        if not vs:
            if p.const() != 0:
                return True
            continue
        v = vs[0]
        c = p.t[v]

        def sub(q):
            k = q.t.get(v)
            if not k:
                return q
            return padd(q, pscale(p, k / c), -1)
        eqs = [sub(q) for q in eqs]
        ineq = [(sub(q), op) for q, op in ineq]
    return _fm_ineq(ineq)


def _signs(cons):
    """products: what the signs of the factors say about them, and back"""
    sign = {}     # monomial -> (-1 / 1, strict)

    def note(m, s, strict):
        old = sign.get(m)
        if old is None or (old[0] == s and strict and not old[1]):
            sign[m] = (s, strict)
            return True
        return False
    for p, op in cons:
        ms = [m for m in p.t if m]
        if len(ms) != 1 or op == "=":
            continue
        c, c0 = p.t[ms[0]], p.t.get((), 0)
        # c * m + c0 op 0
        if c0 >= 0:
            note(ms[0], -1 if c > 0 else 1, op == "<" or c0 > 0)
    out = []
    prods = {m for p, _ in cons for m in p.t if len(m) > 1 and all(e == 1 for _, e in m)}
    for _ in range(2):
        for m in prods:
            fs = [((a, 1),) for a, _ in m]
            known = [sign.get(f) for f in fs]
            if None not in known:
                s, strict = 1, True
                for k, t in known:
                    s *= k
                    strict = strict and t
                note(m, s, strict)
                out.append((Poly({m: Fraction(-s)}), "<" if strict else "<="))
            elif m in sign and known.count(None) == 1 and all(k is None or k[1] for k in known):
                s, strict = sign[m]
                for k in known:
                    if k is not None:
                        s *= k[0]
                f = fs[known.index(None)]
                if note(f, s, strict):
                    out.append((Poly({f: Fraction(-s)}), "<" if strict else "<="))
    for p, op in cons:
        # a factor of every term, of known sign
        ms = list(p.t)
        if len(ms) < 2 or () in p.t:
            continue
        for f in ms[0]:
            if f[1] != 1 or not all(f in m for m in ms):
                continue
            k = sign.get((f,))
            if k is not None and k[1]:
                q = Poly({tuple(x for x in m if x != f): c * k[0] for m, c in p.t.items()})
                out.append((q, op))
    lins = [(q, op) for q, op in cons if op != "=" and len(q.t) > 1 and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in q.t)]
    for p, op in cons:
        if op == "=" or not 2 <= len(p.t) <= 24 or not any(len(m) > 1 for m in p.t):
            continue
        for q, oq in lins:
            # q < 0 (or q <= 0 and q * r < 0): the other factor
            if oq == "<" or op == "<":
                r = pdivexact(p, q)
                if r is not None:
                    out.append((pscale(r, -1), op))
    return out


def _fm_ineq(ineq):
    cur = set()
    for p, op in ineq:
        if p.is_const():
            c = p.const()
            if c > 0 or (c == 0 and op == "<"):
                return True
            continue
        lead = min((m for m in p.t if m), key=lambda m: [(a.id, e) for a, e in m])
        k = abs(p.t[lead])
        cur.add((pscale(p, 1 / k), op))
    while cur:
        count = {}
        for p, _ in cur:
            for m, c in p.t.items():
                if m:
                    a, b = count.get(m, (0, 0))
                    count[m] = (a + (c > 0), b + (c < 0))
        if not count:
            return False
        v = min(count, key=lambda m: (count[m][0] * count[m][1], [a.id for a, _ in m]))
        pos = [(p, op) for p, op in cur if p.t.get(v, 0) > 0]
        neg = [(p, op) for p, op in cur if p.t.get(v, 0) < 0]
        rest = {(p, op) for p, op in cur if v not in p.t}
        if len(pos) * len(neg) > 400 or len(rest) > 600:
            return False
        for p, op in pos:
            for q, oq in neg:
                r = padd(pscale(p, -q.t[v]), pscale(q, p.t[v]))
                o = "<" if "<" in (op, oq) else "<="
                if r.is_const():
                    c = r.const()
                    if c > 0 or (c == 0 and o == "<"):
                        return True
                    continue
                lead = min((m for m in r.t if m), key=lambda m: [(a.id, e) for a, e in m])
                k = abs(r.t[lead])
                rest.add((pscale(r, 1 / k), o))
        cur = rest
    return False


CONTRADICTION = object()


def _whole_atom(key):
    return atom("in", "whole %d" % _WHOLE.setdefault(key, len(_WHOLE) + 1), isint=True)


def _diophantine(p):
    """p is to be a whole number: the values it can take, when it has one whole
    unknown m (a new unknown t, m = m0 + D t), or no value at all"""
    if any(not a.isint for m in p.t for a, _ in m):
        return None
    den = math.lcm(*[c.denominator for c in p.t.values()])
    cs = {m: int(c * den) for m, c in p.t.items()}
    c0 = cs.pop((), 0)
    if not cs or c0 % math.gcd(den, *cs.values()) != 0:
        return CONTRADICTION
    if len(cs) != 1:
        return None
    (m, a), = cs.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    for m0 in range(den):
        if (a * m0 + c0) % den == 0:
            break
    g = math.gcd(a, den)
    step = den // g
    t = _whole_atom(p)
    r = {((t, 1),): Fraction(a * step, den)}
    b = Fraction(a * m0 + c0, den)
    if b:
        r[()] = b
    return mk(Poly(r))


class Facts:
    __slots__ = ("bools", "nulls", "lin", "ne", "subst", "distinct")

    def __init__(self):
        self.bools = {}
        self.nulls = {}
        self.lin = ()
        self.ne = ()
        self.subst = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.bools = dict(self.bools)
        f.nulls = dict(self.nulls)
        f.lin = self.lin
        f.ne = self.ne
        f.subst = self.subst
        return f

    # -- normalisation under equalities
    def norm(self, v):
        if not self.subst:
            return v
        s = self.subst
        return rewrite(v, lambda a: s.get(a))

    # -- numeric queries
    def _related(self, p, extra=()):
        want = {m for m in p.t if m}
        cons = list(self.lin)
        # close over shared monomials and arguments of floors
        used = []
        changed = True
        pool = cons
        while changed:
            changed = False
            rest = []
            for c in pool:
                ms = {m for m in c[0].t if m}
                ats = {a for m in ms for a, _ in m}
                if ms & want or any(a in ats for m in want for a, _ in m):
                    used.append(c)
                    want |= ms
                    changed = True
                else:
                    rest.append(c)
            pool = rest
            # floor arguments
            for m in list(want):
                for a, _ in m:
                    if a.op == "floor" and to_rat(a.args[0]) is not None:
                        for k in _poly_of(a.args[0]).t:
                            if k and k not in want:
                                want.add(k)
                                changed = True
        return used

    def _clear(self, v):
        """a quotient whose denominator has a known sign, up to a positive factor"""
        if isinstance(v, Rat) and v.d != P1:
            d = mk(v.d)
            if isinstance(d, Const):
                return v
            if self.cmp(r_neg(d), "<") is True:
                return mk(v.n)
            if self.cmp(d, "<") is True:
                return r_neg(mk(v.n))
        return v

    def cmp(self, v, op):
        """decide  v op 0  (op in < <= = !=): True, False or None"""
        v = self.norm(v)
        if to_rat(v) is None:
            return None
        v = mk(v.n) if op in ("=", "!=") and isinstance(v, Rat) and v.d != P1 else self._clear(v)
        if isinstance(v, Const):
            c = Fraction(v.v)
            return {"<": c < 0, "<=": c <= 0, "=": c == 0, "!=": c != 0}[op]
        p = _poly_of(v)
        if op == "!=":
            r = self.cmp(v, "=")
            return None if r is None else not r
        if op == "=":
            if p in self.ne or pscale(p, -1) in self.ne:
                return False
            used = self._related(p)
            lo = _infeasible(used + [(p, "<")])
            hi = _infeasible(used + [(pscale(p, -1), "<")])
            if lo and hi:
                return True
            if _infeasible(used + [(p, "=")]):
                return False
            for q in self.ne:
                k = _proportional(p, q)
                if k is not None:
                    return False
            # signed quotients / products
            return None
        used = self._related(p)
        np_ = pscale(p, -1)
        if op == "<":
            if _infeasible(used + [(np_, "<=")]):
                return True
            if _infeasible(used + [(p, "<")]):
                return False
            if _infeasible(used + [(np_, "<")]) and self._is_ne(p):
                return True
            return None
        if op == "<=":
            if _infeasible(used + [(np_, "<")]):
                return True
            if _infeasible(used + [(p, "<=")]):
                return False
            if _infeasible(used + [(p, "<")]) and self._is_ne(p):
                return False
            return None
        raise ValueError(op)

    def _is_ne(self, p):
        return any(_proportional(p, q) is not None for q in self.ne)

    # -- adding facts: return new Facts or None when contradictory
    def with_cmp(self, v, op):
        r = self.cmp(v, op)
        if r is True:
            return self
        if r is False:
            return None
        v = self.norm(v)
        if to_rat(v) is None:
            return self
        v = mk(v.n) if op in ("=", "!=") and isinstance(v, Rat) and v.d != P1 else self._clear(v)
        p = _poly_of(v)
        f = self.copy()
        if op == "!=":
            f.ne = self.ne + (p,)
            used = self._related(p)
            if _infeasible(used + [(pscale(p, -1), "<")]):
                f.lin = self.lin + ((p, "<"),)
            elif _infeasible(used + [(p, "<")]):
                f.lin = self.lin + ((pscale(p, -1), "<"),)
            return f
        if op == "=":
            n, d = to_rat(v)
            w = self._whole(n)
            if w is CONTRADICTION:
                return None
            if w is not None:
                a, val = w
                return f._with_subst(a, val)
            # orient: solve for an atom that occurs linearly and alone
            best = None
            for m, c in n.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if sum(1 for k in n.t if any(x is a for x, _ in k)) == 1:
                        # must not occur inside another atom of the poly
                        if any(a in deep_atoms(x) and x is not a for k in n.t for x, _ in k):
                            continue
                        score = (len(deep_atoms(a)), a.op == "fresh", a.id)
                        if best is None or score > best[0]:
                            best = (score, a, c)
            if best is not None:
                _, a, c = best
                rest = Poly({m: -k / c for m, k in n.t.items() if m != ((a, 1),)})
                val = mk(rest) if rest else Const(0)
                return f._with_subst(a, val)
            f.lin = self.lin + ((p, "="),)
            return f
        if op == "<=" and p.t and all(len(m) <= 1 for m in p.t) and _infeasible(self._related(p) + [(p, "<")]):
            return self.with_cmp(v, "=")
        f.lin = self.lin + ((p, op),)
        return f

    def _whole(self, n):
        """floor(e) == e: e is a whole number k; solved for an atom of e"""
        for m, c in n.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floor":
                e = to_rat(m[0][0].args[0])
                if e is None or e[1] != P1:
                    continue
                e = e[0]
                rest = Poly({k: -q / c for k, q in n.t.items() if k != m})
                if rest.t != e.t:
                    continue
                best = None
                for k, q in e.t.items():
                    if len(k) == 1 and k[0][1] == 1 and k[0][0].op in ("in", "fresh", "app", "start", "end"):
                        x = k[0][0]
                        if sum(1 for j in e.t if any(x in deep_atoms(y) for y, _ in j)) != 1:
                            continue
                        if best is None or (not x.isint, x.id) > (not best[0].isint, best[0].id):
                            best = (x, k, q)
                if best is None:
                    continue
                x, k, q = best
                whole = _whole_atom(e)
                val = Poly({j: -r / q for j, r in e.t.items() if j != k})
                val = r_add(mk(val) if val.t else Const(0), mk(Poly({((whole, 1),): 1 / q})))
                if x.isint and not is_int_value(val):
                    val = _diophantine(to_rat(val)[0])
                    if val is None:
                        continue
                    if val is CONTRADICTION:
                        return val
                return x, val
        return None

    def _with_subst(self, a, val):
        """record a := val and renormalise"""
        f = Facts()
        one = {a: val}
        memo = {}

        def rw(v):
            return rewrite(v, lambda x: one.get(x), memo)
        pending = []
        for k, v in self.subst.items():
            k2, v2 = rw(k), rw(v)
            if k2 is not k:
                # the atom it stood for is now another value
                pending.append((k2, v2))
            f.subst[k] = v2
        f.subst[a] = val
        # nullness / bools of rewritten atoms
        for k, b in self.nulls.items():
            k2 = rw(k)
            if isinstance(k2, Atom):
                if k2 in f.nulls and f.nulls[k2] != b:
                    return None
                f.nulls[k2] = b
            elif b:
                return None
        for k, b in self.bools.items():
            k2 = rw(k)
            if isinstance(k2, Atom):
                if k2 in f.bools and f.bools[k2] != b:
                    return None
                f.bools[k2] = b
            elif isinstance(k2, Const) and isinstance(k2.v, bool) and k2.v != b:
                return None
        for p, op in self.lin:
            v = rw(mk(p)) if p else Const(0)
            g = f.with_cmp(v, op)
            if g is None:
                return None
            f = g
        for v, op in _atom_axioms(a, val):
            g = f.with_cmp(rw(v), op)
            if g is None:
                return None
            f = g
        for k2, v2 in pending:
            if to_rat(k2) is not None and to_rat(v2) is not None:
                g = f.with_cmp(r_add(k2, v2, -1), "=")
                if g is None:
                    return None
                f = g
        for p in self.ne:
            v = rw(mk(p)) if p else Const(0)
            g = f.with_cmp(v, "!=")
            if g is None:
                return None
            f = g
        return f

    # -- nullness
    def null(self, a):
        a = self.norm(a)
        if not isinstance(a, Atom):
            return isinstance(a, Const) and a.v is None
        r = self.nulls.get(a)
        if r is None and not a.nullable:
            return False
        return r

    def with_null(self, a, b):
        r = self.null(a)
        if r is not None:
            return self if r == b else None
        a = self.norm(a)
        f = self.copy()
        f.nulls[a] = b
        return f

    def boolean(self, a):
        a = self.norm(a)
        if isinstance(a, Const):
            return bool(a.v)
        return self.bools.get(a)

    def with_bool(self, a, b):
        a = self.norm(a)
        if isinstance(a, Const):
            return self if bool(a.v) == b else None
        r = self.bools.get(a)
        if r is not None:
            return self if r == b else None
        f = self.copy()
        f.bools[a] = b
        return f

    def describe(self):
        out = []
        for a, b in self.nulls.items():
            out.append("%s is %sNone" % (show(a), "" if b else "not "))
        for a, b in self.bools.items():
            out.append(("" if b else "not ") + show(a))
        for p, op in self.lin:
            out.append("%s %s 0" % (show(mk(p)), op))
        for p in self.ne:
            out.append("%s != 0" % show(mk(p)))
        for a, v in self.subst.items():
            out.append("%s = %s" % (show(a), show(v)))
        return out


def _proportional(p, q):
    if set(p.t) != set(q.t) or not p.t:
        return None
    k = None
    for m in p.t:
        r = p.t[m] / q.t[m]
        if k is None:
            k = r
        elif r != k:
            return None
    return k
