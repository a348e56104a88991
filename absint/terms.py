"""Value numbers of the abstract domain.

Every abstract number is either a constant or a rational function over *atoms*
(opaque, hash-consed value numbers).  Rational functions are kept in a normal
form, so two expressions that are algebraically the same get the same value
number whatever their spelling.  Nothing here executes the analysed program.
"""
from fractions import Fraction
import math

_INTERN = {}


class Atom:
    """An opaque value number: an operator over argument value numbers."""
    __slots__ = ("id", "op", "args", "kind", "nullable", "isint", "meta", "key")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def atom(op, *args, kind="num", nullable=False, isint=False, meta=None):
    key = (op, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(_INTERN) + 1
        a.op = op
        a.args = args
        a.kind = kind
        a.nullable = nullable
        a.isint = isint
        a.meta = meta
        a.key = key
        _INTERN[key] = a
    return a


_FRESH = [0]


def fresh(name, kind="num", nullable=False, isint=False, meta=None):
    _FRESH[0] += 1
    return atom("fresh", name, _FRESH[0], kind=kind, nullable=nullable, isint=isint, meta=meta)


# ---------------------------------------------------------------- constants


class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def cat(self):
        v = self.v
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, (int, float, Fraction)):
            return "num"
        return type(v).__name__

    def __eq__(self, o):
        return isinstance(o, Const) and self.cat() == o.cat() and self.v == o.v

    def __hash__(self):
        return hash((self.cat(), self.v))

    def __repr__(self):
        if isinstance(self.v, Fraction):
            return str(float(self.v)) if self.v.denominator != 1 else str(self.v.numerator)
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def is_num_const(v):
    return isinstance(v, Const) and v.cat() == "num"


def is_finite_const(v):
    return is_num_const(v) and not (isinstance(v.v, float) and (math.isinf(v.v) or math.isnan(v.v)))


# -------------------------------------------------------------- polynomials
# monomial: tuple of (atom, exponent) sorted by atom id; () is the unit


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def __bool__(self):
        return bool(self.t)


P0 = Poly({})
P1 = Poly({(): Fraction(1)})


def padd(a, b, k=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + k * c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = {}
    for a, e in m:
        d[a] = d.get(a, 0) + e
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda z: z[0].id))


class TooBig(Exception):
    pass


def pmul(a, b):
    if len(a.t) * len(b.t) > 4000:
        raise TooBig()
    t = {}
    for m, c in a.t.items():
        for n, e in b.t.items():
            k = mmul(m, n)
            v = t.get(k, 0) + c * e
            if v:
                t[k] = v
            else:
                t.pop(k, None)
    return Poly(t)


def pscale(a, k):
    if k == 0:
        return P0
    return Poly({m: c * k for m, c in a.t.items()})


def _mdeg(m):
    return (sum(e for _, e in m), tuple((-a.id, e) for a, e in m))


def plead(a):
    return max(a.t, key=_mdeg)


def mdiv(m, n):
    """m / n as monomials or None"""
    d = dict(m)
    for a, e in n:
        r = d.get(a, 0) - e
        if r < 0:
            return None
        if r:
            d[a] = r
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda z: z[0].id))


def _lexkey(m):
    # pure lex order on atom ids (a real monomial order)
    return tuple((-a.id, e) for a, e in m)


def _lexlead(p):
    # lex: compare exponent vectors by atom id order
    ids = sorted({a.id for m in p.t for a, _ in m})

    def vec(m):
        d = {a.id: e for a, e in m}
        return tuple(d.get(i, 0) for i in ids)
    return max(p.t, key=vec)


def pdivexact(a, b):
    """a / b if b divides a exactly, else None"""
    if b.is_const():
        return pscale(a, 1 / b.const()) if b else None
    ids = sorted({x.id for m in list(a.t) + list(b.t) for x, _ in m})

    def vec(m):
        d = {x.id: e for x, e in m}
        return tuple(d.get(i, 0) for i in ids)
    lb = max(b.t, key=vec)
    q = P0
    r = a
    for _ in range(200):
        if not r:
            return q
        lr = max(r.t, key=vec)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = Poly({m: r.t[lr] / b.t[lb]})
        q = padd(q, c)
        r = padd(r, pmul(c, b), -1)
    return None


class Rat:
    """numerator / denominator, an abstract number"""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d):
        self.n = n
        self.d = d
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Rat) and self.n == o.n and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __repr__(self):
        return show(self)


WAVES = [False]      # sines, cosines or roots have been seen


def unwave(p):
    """sin(u)^2 = 1 - cos(u)^2 and sqrt(u)^2 = u; (numerator, denominator) of a polynomial"""
    for m in p.t:
        for a, e in m:
            if e >= 2 and a.op in ("math.sin", "math.sqrt"):
                if a.op == "math.sin":
                    sq, den = padd(P1, Poly({((atom("math.cos", a.args[0]), 2),): Fraction(1)}), -1), P1
                else:
                    sq, den = to_rat(a.args[0])
                t, u = P0, P0
                for k, c in p.t.items():
                    f = dict(k).get(a, 0)
                    if f >= 2:
                        rest = tuple((x, g if x is not a else f - 2) for x, g in k if x is not a or f > 2)
                        u = padd(u, Poly({rest: c}))
                    else:
                        t = padd(t, Poly({k: c}))
                n, d = unwave(padd(pmul(t, den), pmul(u, sq)))
                return n, pmul(d, den)
    return p, P1


def mk(n, d=P1):
    """normal form; returns Const for constants, the atom itself when trivial"""
    if WAVES[0] and d:
        (n, dn), (d, dd) = unwave(n), unwave(d)
        n, d = pmul(n, dd), pmul(d, dn)
    if not d:
        return fresh("div0")
    if not n:
        return Const(0)
    if d.is_const():
        c = d.const()
        if c != 1:
            n = pscale(n, 1 / c)
        if n.is_const():
            return frac_const(n.const())
        if len(n.t) == 1:
            (m, c), = n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return Rat(n, P1)
    # common monomial factor
    common = None
    for m in list(n.t) + list(d.t):
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items(), key=lambda z: z[0].id))
        n = Poly({mdiv(m, cm): c for m, c in n.t.items()})
        d = Poly({mdiv(m, cm): c for m, c in d.t.items()})
        return mk(n, d)
    q = pdivexact(n, d)
    if q is not None:
        return mk(q)
    if len(n.t) > 1 or not n.is_const():
        q = pdivexact(d, n) if not n.is_const() else None
        if q is not None:
            return mk(P1, q)
    # one shared factor step: try to cancel the denominators' own factors is
    # not needed, equality is decided by cross multiplication
    lc = d.t[_lexlead(d)]
    if lc != 1:
        n = pscale(n, 1 / lc)
        d = pscale(d, 1 / lc)
    return Rat(n, d)


def frac_const(f):
    if f.denominator == 1:
        return Const(int(f))
    return Const(f)


def to_rat(v):
    """(n, d) of a finite numeric value, or None"""
    if isinstance(v, Rat):
        return v.n, v.d
    if isinstance(v, Atom):
        return Poly({((v, 1),): Fraction(1)}), P1
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return (P1 if v.v else P0), P1
        if is_finite_const(v):
            f = Fraction(v.v)
            return (Poly({(): f}) if f else P0), P1
    return None


def r_add(a, b, k=1):
    (n1, d1), (n2, d2) = to_rat(a), to_rat(b)
    if d1 == d2:
        return mk(padd(n1, n2, k), d1)
    return mk(padd(pmul(n1, d2), pmul(n2, d1), k), pmul(d1, d2))


def r_mul(a, b):
    (n1, d1), (n2, d2) = to_rat(a), to_rat(b)
    return mk(pmul(n1, n2), pmul(d1, d2))


def r_div(a, b):
    (n1, d1), (n2, d2) = to_rat(a), to_rat(b)
    if not n2:
        return None
    return mk(pmul(n1, d2), pmul(d1, n2))


def r_neg(a):
    n, d = to_rat(a)
    return mk(pscale(n, -1), d)


def r_eq(a, b):
    ra, rb = to_rat(a), to_rat(b)
    if ra is None or rb is None:
        return a == b
    if WAVES[0]:
        return not unwave(padd(pmul(ra[0], rb[1]), pmul(rb[0], ra[1]), -1))[0]
    return pmul(ra[0], rb[1]) == pmul(rb[0], ra[1])


def atoms_of(v, acc=None):
    """atoms that occur in a value number, at the top level only"""
    if acc is None:
        acc = set()
    if isinstance(v, Atom):
        acc.add(v)
    elif isinstance(v, Rat):
        for p in (v.n, v.d):
            for m in p.t:
                for a, _ in m:
                    acc.add(a)
    return acc


def deep_atoms(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, Atom):
        if v in acc:
            return acc
        acc.add(v)
        for x in v.args:
            deep_atoms(x, acc)
    elif isinstance(v, Rat):
        for a in atoms_of(v):
            deep_atoms(a, acc)
    elif isinstance(v, tuple):
        for x in v:
            deep_atoms(x, acc)
    elif hasattr(v, "parts"):
        for x in v.parts():
            deep_atoms(x, acc)
    return acc


# ------------------------------------------------------------- rewriting


def rewrite(v, f, memo=None):
    """apply f(atom) -> value|None bottom-up through a value number"""
    if memo is None:
        memo = {}
    if isinstance(v, (Const, str, int, bool, type(None), float)):
        return v
    try:
        if v in memo:
            return memo[v]
    except TypeError:
        return v
    if isinstance(v, Atom):
        r = f(v)
        if r is None:
            if any(isinstance(x, (Atom, Rat, tuple)) or hasattr(x, "map_parts") for x in v.args):
                na = tuple(rewrite(x, f, memo) for x in v.args)
                if na != v.args:
                    r = rebuild(v, na)
                    if isinstance(r, Atom) and r is not v:
                        r2 = f(r)
                        if r2 is not None:
                            r = r2
                else:
                    r = v
            else:
                r = v
    elif isinstance(v, Rat):
        r = _rw_poly(v.n, f, memo)
        d = _rw_poly(v.d, f, memo)
        if to_rat(r) is None or to_rat(d) is None:
            r = v
        else:
            q = r_div(r, d)
            r = q if q is not None else v
    elif isinstance(v, tuple):
        r = tuple(rewrite(x, f, memo) for x in v)
    elif hasattr(v, "map_parts"):
        r = v.map_parts(lambda x: rewrite(x, f, memo))
    else:
        r = v
    memo[v] = r
    return r


def _rw_poly(p, f, memo):
    tot = Const(0)
    for m, c in p.t.items():
        x = frac_const(c)
        for a, e in m:
            b = rewrite(a, f, memo)
            if to_rat(b) is None:
                b = a
            for _ in range(e):
                x = r_mul(x, b)
        tot = r_add(tot, x)
    return tot


# rebuild hook: functions of atoms that have a simplification of their own
REBUILD = {}


def is_int_value(v):
    if isinstance(v, Const):
        return isinstance(v.v, int)
    r = to_rat(v)
    if r is None:
        return False
    n, d = r
    if d != P1:
        return False
    return all(c.denominator == 1 and all(a.isint for a, _ in m) for m, c in n.t.items())


def floor_value(v):
    if isinstance(v, Const):
        return Const(math.floor(v.v))
    if is_int_value(v):
        return v
    n, d = to_rat(v)
    if d == P1:
        # integral part leaves the floor
        ip = {}
        rest = {}
        for m, c in n.t.items():
            if all(a.isint for a, _ in m):
                k = Fraction(math.floor(c)) if not m else (c if c.denominator == 1 else None)
                if k is not None:
                    if k:
                        ip[m] = k
                    if c - k:
                        rest[m] = c - k
                    continue
            rest[m] = c
        if ip:
            r = mk(Poly(rest)) if rest else Const(0)
            return r_add(floor_value(r), mk(Poly(ip)))
    return atom("floor", v, isint=True)


def _finite(v):
    return not (isinstance(v, Const) and isinstance(v.v, float) and (math.isinf(v.v) or math.isnan(v.v)))


def _rb_floor(a, args):
    if to_rat(args[0]) is not None and _finite(args[0]):
        return floor_value(args[0])


def _rb_const(f):
    def g(a, args):
        if all(isinstance(x, Const) and isinstance(x.v, (int, Fraction)) for x in args):
            return frac_const(Fraction(f([Fraction(x.v) for x in args])))
    return g


REBUILD["floor"] = _rb_floor
REBUILD["min"] = _rb_const(min)
REBUILD["max"] = _rb_const(max)
REBUILD["abs"] = _rb_const(lambda v: abs(v[0]))


def rebuild(a, args):
    h = REBUILD.get(a.op)
    if h is not None:
        r = h(a, args)
        if r is not None:
            return r
    return atom(a.op, *args, kind=a.kind, nullable=a.nullable, isint=a.isint, meta=a.meta)


# --------------------------------------------------------------- printing


def show(v, depth=0):
    if depth > 6:
        return "…"
    if isinstance(v, Const):
        return repr(v)
    if isinstance(v, Rat):
        n = _showp(v.n, depth)
        if v.d == P1:
            return n
        return "(%s)/(%s)" % (n, _showp(v.d, depth))
    if isinstance(v, Atom):
        if v.op in ("sym", "bound"):
            return str(v.args[0])
        if v.op == "fresh":
            return "%s#%s" % (v.args[0], v.args[1])
        if v.op == "y":
            return "%s.y(%s)%s" % (show(v.args[0], depth + 1), show(v.args[2], depth + 1), "'" * v.args[1])
        if v.op == "domain":
            return "%s.domain%s" % (show(v.args[0], depth + 1), "'" * v.args[1])
        if v.op == "attr":
            return "%s.%s" % (show(v.args[0], depth + 1), v.args[1])
        if v.op == "elem":
            return "%s[%s]" % (show(v.args[0], depth + 1), show(v.args[1], depth + 1))
        return "%s(%s)" % (v.op, ", ".join(show(x, depth + 1) for x in v.args))
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(show(x, depth + 1) for x in v)
    return str(v)


def _showp(p, depth):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda z: [(a.id, e) for a, e in z[0]]):
        f = "*".join((show(a, depth + 1) if e == 1 else "%s^%d" % (show(a, depth + 1), e)) for a, e in m)
        if not f:
            out.append("%s" % frac_const(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append("-" + f)
        else:
            out.append("%s*%s" % (frac_const(c), f))
    return " + ".join(out)
