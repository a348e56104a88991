"""Language and library idioms that the operators and containers do not cover:
generators that run as they are consumed, context managers written as
generators, decorators, local classes, named tuples, data classes,
enumerations, pattern matching, cached functions and unbounded iterators."""
import ast
from .engine import *
from .engine import _is_gen
from .values import *

SKIP_DECOS = {"property", "staticmethod", "classmethod", "abstractmethod", "abstractproperty", "setter", "getter", "deleter",
              "cached_property", "override", "final", "overload", "no_type_check", "abstractclassmethod", "abstractstaticmethod"}


class Gen:
    """an iterator that has not been started"""
    __slots__ = ("mode", "a")

    def __init__(self, mode, a):
        self.mode = mode
        self.a = a

    def copy(self):
        return Gen(self.mode, self.a)


class NTupleV(TupleV):
    """a tuple with named fields"""
    __slots__ = ("fields", "cname", "info")

    def __init__(self, items, fields, cname, info=None):
        TupleV.__init__(self, items)
        self.fields = fields
        self.cname = cname
        self.info = info

    __hash__ = TupleV.__hash__

    def map_parts(self, f):
        return NTupleV((f(x) for x in self.items), self.fields, self.cname, self.info)


class Token:
    """what leaves a generator early"""
    __slots__ = ("sig",)

    def __init__(self, sig):
        self.sig = sig


def leave(sig):
    return ExcV(ExcObj("GeneratorExit", (Token(sig),)))


def left(v):
    """the signal carried out of a generator, or None"""
    if v.exc.name == "GeneratorExit" and v.exc.args and isinstance(v.exc.args[0], Token):
        return v.exc.args[0]
    return None


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return d.attr
    return "?"


class Idioms:

    # ---------------------------------------------------------- generators
    def new_gen(self, st, mode, a):
        return self.new(st, Gen(mode, a), "gen")

    def is_gen(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), Gen)

    def run_gen(self, st, ref, cb, node):
        """run a generator that was not started; cb(state, value) gives
        (state, None | ExcV).  Result: (state, None | ExcV | Token)"""
        g = self.rec(st, ref)
        st.heap[ref.id] = Lst((), "iter")
        outer = list(self.stack)
        if g.mode == "count":
            cur, out = [(st, g.a[0])], []
            for _ in range(64):
                nxt = []
                for s, v in cur:
                    for s2, e in cb(s, v):
                        if e is None:
                            for s3, w in self.binop(s2, ast.Add(), v, g.a[1], node):
                                nxt.append((s3, w))
                        else:
                            out.append((s2, left(e) or e))
                cur = nxt
                if not cur:
                    return out
            for s, _ in cur:
                self.taint(s, "long loop")
                out.append((s, None))
            return out

        def back(s, v):
            inner = self.stack
            self.stack = list(outer)
            try:
                return cb(s, v)
            finally:
                self.stack = inner
        out = []
        if g.mode == "func":
            f, env, call = g.a
            self.mut(st, env).yields = back
            body = f.node.body
            frame = Frame(f, call)
        else:
            n, env0 = g.a
            body = [self._desugar(n)]
            r = st.heap[env0.id]
            env = self.new(st, Env({}, env0, r.func, r.mod, r.cls, r.selfv), "env")
            st.heap[env.id].func = None
            st.heap[env.id].yields = back
            frame = None
        if frame is not None:
            self.stack.append(frame)
        try:
            for s, sig in self.block(body, st, env):
                if isinstance(sig, tuple) and sig[0] == "exc":
                    out.append((s, left(sig[1]) or sig[1]))
                else:
                    out.append((s, None))
        finally:
            self.stack = outer
        return out

    def _desugar(self, n):
        d = getattr(n, "_as_loop", None)
        if d is None:
            d = ast.Expr(ast.Yield(n.elt))
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    d = ast.If(c, [d], [])
                d = ast.For(g.target, g.iter, [d], [])
            ast.copy_location(d, n)
            ast.fix_missing_locations(d)
            for x in ast.walk(d):
                if not hasattr(x, "_mod"):
                    x._mod = getattr(n, "_mod", None)
            n._as_loop = d
        return d

    def drain(self, st, ref, node):
        """run a generator to its end: (state, segments | ExcV)"""
        g = self.rec(st, ref)
        if g.mode == "count":
            self.taint(st, "an unbounded iterator consumed")
            return [(st, (("s", fresh("count", kind="list", meta="unknown")),))]
        f, env, call = g.a
        st.heap[ref.id] = Lst((), "iter")
        self.mut(st, env).yields = ()
        self.stack.append(Frame(f, call))
        out = []
        try:
            for s, sig in self.block(f.node.body, st, env):
                if isinstance(sig, tuple) and sig[0] == "exc":
                    out.append((s, sig[1]))
                else:
                    out.append((s, s.heap[env.id].yields))
        finally:
            self.stack.pop()
        return out

    def store(self, st, ref, node):
        """turn a generator that is consumed step by step into the list of
        what it gives; undecided when it fails on the way"""
        if self.rec(st, ref).mode == "count":
            return [st]
        out = []
        for s, segs in self.drain(st, ref, node):
            if isinstance(segs, ExcV):
                self.taint(s, "a generator that fails, consumed step by step")
                segs = (("s", fresh("unknown", kind="list", meta="unknown")),)
            s.heap[ref.id] = Lst(segs, "iter")
            out.append(s)
        return out

    def do_yield(self, st, env, v):
        """list of (state, None | ExcV)"""
        e = env
        while st.heap[e.id].yields is None:
            e = st.heap[e.id].parent
        y = st.heap[e.id].yields
        if callable(y):
            return y(st, v)
        r = self.mut(st, e)
        r.yields = r.yields + (("e", v),)
        return [(st, None)]

    def for_gen(self, n, st, ref, env):
        out = []

        def cb(s, v):
            res = []
            for s2, sig in self._iter(n, s, v, env):
                res.append((s2, None if sig is None or sig == "cont" else leave(sig)))
            return res
        for s, e in self.run_gen(st, ref, cb, n):
            if e is None:
                out += self.block(n.orelse, s, env)
            elif isinstance(e, Token):
                out.append((s, None if e.sig == "brk" else e.sig))
            else:
                out.append((s, ("exc", e)))
        return out

    def for_iter(self, n, st, ref, env):
        """a loop over an iterator that stays usable afterwards"""
        cur, out, done = [st], [], []
        for _ in range(80):
            nxt = []
            for s in cur:
                r = self.rec(s, ref)
                if not r.segs:
                    done.append(s)
                    continue
                if r.segs[0][0] != "e":
                    segs = r.segs
                    self.mut(s, ref).segs = ()
                    out += self._for_segs(n, s, segs, env)
                    continue
                q = self.mut(s, ref)
                v = q.segs[0][1]
                q.segs = q.segs[1:]
                for s2, sig in self._iter(n, s, v, env):
                    if sig is None or sig == "cont":
                        nxt.append(s2)
                    else:
                        out.append((s2, None if sig == "brk" else sig))
            cur = nxt
            if not cur:
                break
        for s in cur:
            self.taint(s, "long loop")
        for s in done + cur:
            out += self.block(n.orelse, s, env)
        return out

    def first_of(self, st, ref, default, node):
        """next() of a generator nothing else holds"""
        out = []
        for s, e in self.run_gen(st, ref, lambda s, v: [(s, leave(("val", v)))], node):
            if isinstance(e, Token):
                out.append((s, e.sig[1]))
            elif e is not None:
                out.append((s, e))
            elif default is not None:
                out.append((s, default))
            else:
                out += self.exc(s, "StopIteration", node)
        return out

    def any_of(self, st, ref, stop, node):
        def cb(s, v):
            res = []
            for s2, b in self.truth(s, v, node):
                res.append((s2, b if isinstance(b, ExcV) else leave(("val", b)) if b == stop else None))
            return res
        out = []
        for s, e in self.run_gen(st, ref, cb, node):
            out.append((s, Const(stop) if isinstance(e, Token) else e if e is not None else Const(not stop)))
        return out

    def lazy_call(self, n, f, st, env):
        """any, all and next stop as soon as they can: when evaluating every
        element of their generator expression fails, evaluate as they do"""
        if not (isinstance(f, ExtV) and f.name in ("any", "all", "next") and n.args and isinstance(n.args[0], ast.GeneratorExp)):
            return None
        if not any(isinstance(v, ExcV) or s.taint is not st.taint for s, v in self.e_GeneratorExp(n.args[0], st.fork(), env)):
            return None
        out = []
        for s, ds in self.evs(n.args[1:], st, env):
            if isinstance(ds, ExcV):
                out.append((s, ds))
                continue
            ref = self.new_gen(s, "exp", (n.args[0], env))
            if f.name == "next":
                out += self.first_of(s, ref, ds[0] if ds else None, n)
            else:
                out += self.any_of(s, ref, f.name == "any", n)
        return out

    # ---------------------------------------------------- context managers
    def with_items(self, n, items, st, env):
        if not items:
            return self.block(n.body, st, env)
        it = items[0]
        out = []
        for s, m in self.ev(it.context_expr, st, env):
            if isinstance(m, ExcV):
                out.append((s, ("exc", m)))
                continue
            m = self.res(s, m)
            if isinstance(m, OpM) and m.name == "__ctx__":
                out += self._with_gen(n, it, items, s, m.recv, env)
                continue
            if isinstance(m, OpM) and m.name == "__suppress__":
                for s2, sig in self.with_items(n, items[1:], s, env):
                    if isinstance(sig, tuple) and sig[0] == "exc" and any(exc_is(sig[1].exc.name, self._exc_name(t)) for t in m.recv.items):
                        sig = None
                    out.append((s2, sig))
                continue
            opaque = isinstance(m, (Atom, UnknownV))
            if opaque:
                if isinstance(m, UnknownV):
                    self.taint(s, "an unknown context manager")
                entered = [(s, m)]
            else:
                entered = self.call_method(s, m, "__enter__", [], {}, n)
            for s2, v in entered:
                if isinstance(v, ExcV):
                    out.append((s2, ("exc", v)))
                    continue
                for s3, e in (self.assign(it.optional_vars, v, s2, env) if it.optional_vars is not None else [(s2, None)]):
                    for s4, sig in ([(s3, ("exc", e))] if e is not None else self.with_items(n, items[1:], s3, env)):
                        if opaque:
                            out.append((s4, sig))
                            continue
                        failed = isinstance(sig, tuple) and sig[0] == "exc"
                        args = [ExtV(sig[1].exc.name), sig[1].exc, NONE] if failed else [NONE, NONE, NONE]
                        for s5, w in self.call_method(s4, m, "__exit__", args, {}, n):
                            if isinstance(w, ExcV):
                                out.append((s5, ("exc", w)))
                            elif failed:
                                for s6, b in self.truth(s5, w, n):
                                    out.append((s6, None if b is True else sig))
                            else:
                                out.append((s5, sig))
        return out

    def _exc_name(self, t):
        return t.name if isinstance(t, ExtV) else t.info.name if isinstance(t, ClassV) else "?"

    def _with_gen(self, n, it, items, st, ref, env):
        self._uid = getattr(self, "_uid", 0) + 1
        key = ("withsig", self._uid)

        def cb(s, v):
            res = []
            for s2, e in (self.assign(it.optional_vars, v, s, env) if it.optional_vars is not None else [(s, None)]):
                if e is not None:
                    res.append((s2, e))
                    continue
                for s3, sig in self.with_items(n, items[1:], s2, env):
                    if isinstance(sig, tuple) and sig[0] == "exc":
                        res.append((s3, sig[1]))
                    else:
                        s3.glob[key] = sig
                        res.append((s3, None))
            return res
        out = []
        for s, e in self.run_gen(st, ref, cb, n):
            if isinstance(e, Token):
                e = leave(e.sig)
            out.append((s, ("exc", e) if e is not None else s.glob.pop(key, None)))
        return out

    # ----------------------------------------------------------- decorators
    def decorate(self, st, f, decos, env, node):
        cur, out = [(st, f)], []
        for d in reversed(decos):
            if deco_name(d) in SKIP_DECOS:
                continue
            nxt = []
            for s, g in cur:
                for s2, dv in self.ev(d, s, env):
                    if isinstance(dv, ExcV):
                        out.append((s2, dv))
                        continue
                    for s3, h in self.call(s2, dv, [g], {}, node):
                        if isinstance(h, ExcV):
                            out.append((s3, h))
                        else:
                            nxt.append((s3, h))
            cur = nxt
        return out + cur

    def class_scope(self, st, c, expr, name=None):
        """the names of a class body that an expression in it refers to:
        list of (state, env)"""
        env = self.new(st, Env({}, getattr(c, "env", None), None, c.module, c), "env")
        cur = [st]
        for n2 in ast.walk(expr):
            if not (isinstance(n2, ast.Name) and n2.id in c.members) or n2.id == name:
                continue
            mem = c.members[n2.id]
            nxt = []
            for s in cur:
                if mem[0] == "value":
                    rs = self.cls_value(s, c, n2.id, mem[1], n2)
                elif mem[0] == "func":
                    rs = self.cls_func(s, c, mem[1], mem[2])
                elif mem[0] == "class":
                    rs = [(s, ClassV(mem[1]))]
                else:
                    rs = [(s, UnknownV("class body"))]
                for s2, v in rs:
                    if not isinstance(v, ExcV):
                        self.mut(s2, env).vars[n2.id] = v
                    nxt.append(s2)
            cur = nxt
        return [(s, env) for s in cur]

    # ------------------------------------------------------- class flavours
    def base_names(self, c):
        out = []
        for k in self.p.mro(c):
            for b in k.base_exprs:
                out.append(deco_name(b) if not isinstance(b, ast.Subscript) else deco_name(b.value))
        return out

    def is_enum(self, c):
        r = getattr(c, "_isenum", None)
        if r is None:
            r = c._isenum = any(b in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag") for b in self.base_names(c))
        return r

    def is_ntuple(self, c):
        r = getattr(c, "_isnt", None)
        if r is None:
            r = c._isnt = "NamedTuple" in self.base_names(c)
        return r

    def is_dataclass(self, c):
        r = getattr(c, "_isdc", None)
        if r is None:
            r = c._isdc = any(deco_name(d) == "dataclass" for k in self.p.mro(c) for d in k.node.decorator_list)
        return r

    def ann_fields(self, c, inherit=True):
        """[(name, default expression or None, class)]"""
        out = {}
        for k in (reversed(self.p.mro(c)) if inherit else [c]):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    a = s.annotation
                    if "ClassVar" in ast.dump(a):
                        continue
                    out[s.target.id] = (s.target.id, s.value, k)
        return list(out.values())

    def enum_member(self, st, c, name, expr, node):
        key = (id(c), name)
        if key in st.cls:
            return [(st, st.cls[key])]
        out = []
        for s, env in self.class_scope(st, c, expr, name):
            for s2, v in self.ev(expr, s, env):
                if isinstance(v, ExcV):
                    out.append((s2, v))
                    continue
                if isinstance(v, OpM) and v.name == "__auto__":
                    names = [k for k, m in c.members.items() if m[0] == "value"]
                    v = Const(names.index(name) + 1)
                o = self.new(s2, Obj(c, {"name": Const(name), "value": v, "_value_": v, "_name_": Const(name)}), "obj")
                s2.cls[key] = o
                out.append((s2, o))
        return out

    def build_fields(self, st, c, fields, args, kw, node):
        """values of the fields of a named tuple or data class"""
        names = [f[0] for f in fields]
        vals = {}
        if len(args) > len(names):
            return self.exc(st, "TypeError", node, "too many arguments")
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in names or k in vals:
                return self.exc(st, "TypeError", node, "argument %s" % k)
            vals[k] = v
        cur, out = [(st, vals)], []
        for n, expr, k in fields:
            nxt = []
            for s, vs in cur:
                if n in vs:
                    nxt.append((s, vs))
                    continue
                if expr is None:
                    out += self.exc(s, "TypeError", node, "missing argument %s" % n)
                    continue
                if isinstance(expr, ast.Call) and deco_name(expr) == "field":
                    kws = {q.arg: q.value for q in expr.keywords}
                    if "default_factory" in kws:
                        for s2, env in self.class_scope(s, k, kws["default_factory"]):
                            for s3, fn in self.ev(kws["default_factory"], s2, env):
                                for s4, v in ([(s3, fn)] if isinstance(fn, ExcV) else self.call(s3, fn, [], {}, node)):
                                    if isinstance(v, ExcV):
                                        out.append((s4, v))
                                    else:
                                        nxt.append((s4, dict(vs, **{n: v})))
                        continue
                    if "default" not in kws:
                        out += self.exc(s, "TypeError", node, "missing argument %s" % n)
                        continue
                    e2 = kws["default"]
                else:
                    e2 = expr
                for s2, v in self.cls_value(s, k, n, e2, node):
                    if isinstance(v, ExcV):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, dict(vs, **{n: v})))
            cur = nxt
        return out + cur

    def special_instance(self, st, c, args, kw, node):
        """instances of enumerations, named tuples and data classes; None for
        ordinary classes"""
        if self.is_enum(c):
            cur, out = [st], []
            for name, mem in c.members.items():
                if mem[0] != "value":
                    continue
                nxt = []
                for s in cur:
                    for s2, o in self.enum_member(s, c, name, mem[1], node):
                        if isinstance(o, ExcV):
                            out.append((s2, o))
                            continue
                        for s3, b in self.eq(s2, self.rec(s2, o).f["value"], args[0], node):
                            if isinstance(b, UnknownV):
                                out.append((s3, b))
                            elif b:
                                out.append((s3, o))
                            else:
                                nxt.append(s3)
                cur = nxt
            for s in cur:
                out += self.exc(s, "ValueError", node, "not a member")
            return out
        if self.is_ntuple(c):
            fields = self.ann_fields(c)
            out = []
            for s, vs in self.build_fields(st, c, fields, args, kw, node):
                out.append((s, vs if isinstance(vs, ExcV) else NTupleV([vs[f[0]] for f in fields], tuple(f[0] for f in fields), c.name, c)))
            return out
        if self.is_dataclass(c) and self.p.lookup(c, "__init__")[1] is None:
            fields = self.ann_fields(c)
            out = []
            for s, vs in self.build_fields(st, c, fields, args, kw, node):
                if isinstance(vs, ExcV):
                    out.append((s, vs))
                    continue
                o = self.new(s, Obj(c, {f[0]: vs[f[0]] for f in fields}), "obj")
                if self.p.lookup(c, "__post_init__")[1] is not None:
                    for s2, w in self.call_method(s, o, "__post_init__", [], {}, node):
                        out.append((s2, w if isinstance(w, ExcV) else o))
                else:
                    out.append((s, o))
            return out
        return None

    def ntuple_attr(self, st, o, name, node):
        if name in o.fields:
            return [(st, self.res(st, o.items[o.fields.index(name)]))]
        if name == "_fields":
            return [(st, TupleV([Const(f) for f in o.fields]))]
        if name == "_replace" or name == "_asdict":
            return [(st, OpM(o, name))]
        if o.info is not None:
            k, mem = self.p.lookup(o.info, name)
            if mem is not None:
                return self.bind_member(st, o, k, mem, name, node)
            if name == "__class__":
                return [(st, ClassV(o.info))]
        return [(st, OpM(o, name))] if hasattr(tuple, name) else self.exc(st, "AttributeError", node, name)

    # ------------------------------------------------------ pattern matching
    def s_Match(self, n, st, env):
        out = []
        for s, v in self.ev(n.subject, st, env):
            if isinstance(v, ExcV):
                out.append((s, ("exc", v)))
                continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s2 in cur:
                    for s3, b in self.pattern(s2, case.pattern, v, env, n):
                        if isinstance(b, ExcV):
                            out.append((s3, ("exc", b)))
                        elif not b:
                            nxt.append(s3)
                        elif case.guard is None:
                            out += self.block(case.body, s3, env)
                        else:
                            for s4, g in self.branch(case.guard, s3, env):
                                if isinstance(g, ExcV):
                                    out.append((s4, ("exc", g)))
                                elif g:
                                    out += self.block(case.body, s4, env)
                                else:
                                    nxt.append(s4)
                cur = nxt
            out += [(s2, None) for s2 in cur]
        return out

    def _and(self, st, steps):
        """run tests one after the other while they hold"""
        cur, out = [st], []
        for f in steps:
            nxt = []
            for s in cur:
                for s2, b in f(s):
                    if b is True:
                        nxt.append(s2)
                    else:
                        out.append((s2, b))
            cur = nxt
        return out + [(s, True) for s in cur]

    def pattern(self, st, p, v, env, node):
        """list of (state, bool | ExcV)"""
        v = self.res(st, v)
        k = type(p).__name__
        if k == "MatchValue":
            out = []
            for s, w in self.ev(p.value, st, env):
                if isinstance(w, ExcV):
                    out.append((s, w))
                else:
                    for s2, b in self.eq(s, v, w, node):
                        out += self.truth(s2, b, node) if not isinstance(b, bool) else [(s2, b)]
            return out
        if k == "MatchSingleton":
            out = []
            for s, b in self.identical(st, v, Const(p.value)):
                out += self.truth(s, b, node) if not isinstance(b, bool) else [(s, b)]
            return out
        if k == "MatchAs":
            def name(s):
                if p.name:
                    self.bind(s, env, p.name, v)
                return [(s, True)]
            steps = ([lambda s: self.pattern(s, p.pattern, v, env, node)] if p.pattern is not None else []) + [name]
            return self._and(st, steps)
        if k == "MatchOr":
            cur, out = [st], []
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.pattern(s, q, v, env, node):
                        if b is False:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, False) for s in cur]
        if k == "MatchSequence":
            out = []
            for s, x in self.denull(st, v):
                if isinstance(x, UnknownV):
                    self.taint(s, "match of an unknown value")
                    out += [(s, True), (s.fork(), False)]
                    continue
                r = self.rec(s, x) if isinstance(x, Ref) else None
                if not (isinstance(x, TupleV) or isinstance(r, Lst) and r.kind == "list"):
                    out.append((s, False))
                    continue
                for s2, vs in self.known_vals(s, x, node):
                    if vs is None:
                        self.taint(s2, "match of a sequence of unknown length")
                        out += [(s2, True), (s2.fork(), False)]
                        continue
                    if isinstance(vs, ExcV):
                        out.append((s2, vs))
                        continue
                    ps = p.patterns
                    star = [i for i, q in enumerate(ps) if isinstance(q, ast.MatchStar)]
                    if (len(vs) != len(ps)) if not star else (len(vs) < len(ps) - 1):
                        out.append((s2, False))
                        continue
                    steps = []
                    if star:
                        i = star[0]
                        after = len(ps) - i - 1
                        mid = vs[i:len(vs) - after]
                        if ps[i].name:
                            steps.append(lambda s, mid=mid, nm=ps[i].name: [(s, self.bind(s, env, nm, self.newlist(s, mid)) is None)])
                        pairs = list(zip(ps[:i], vs)) + list(zip(ps[i + 1:], vs[len(vs) - after:]))
                    else:
                        pairs = list(zip(ps, vs))
                    steps += [lambda s, q=q, w=w: self.pattern(s, q, w, env, node) for q, w in pairs]
                    out += self._and(s2, steps)
            return out
        if k == "MatchMapping":
            r = self.rec(st, v) if isinstance(v, Ref) else None
            if not isinstance(r, Dct):
                return [(st, False)]
            steps = []
            for ke, q in zip(p.keys, p.patterns):
                def one(s, ke=ke, q=q):
                    res = []
                    for s2, kv in self.ev(ke, s, env):
                        kk = self.key(s2, kv)
                        d = self.rec(s2, v).d
                        res += self.pattern(s2, q, d[kk], env, node) if kk in d else [(s2, False)]
                    return res
                steps.append(one)
            return self._and(st, steps)
        if k == "MatchClass":
            out = []
            for s, c in self.ev(p.cls, st, env):
                if isinstance(c, ExcV):
                    out.append((s, c))
                    continue
                for s2, b in self.call(s, ExtV("isinstance"), [v, c], {}, node):
                    for s3, t in self.truth(s2, b, node):
                        if t is not True:
                            out.append((s3, t))
                            continue
                        steps = []
                        if p.patterns:
                            if isinstance(c, ExtV) and len(p.patterns) == 1:
                                steps.append(lambda s: self.pattern(s, p.patterns[0], v, env, node))
                            else:
                                fields = [f[0] for f in self.ann_fields(c.info)] if isinstance(c, ClassV) else []
                                if len(fields) < len(p.patterns):
                                    self.taint(s3, "positional class pattern")
                                    out.append((s3, False))
                                    continue
                                steps += [self._attr_pattern(v, f, q, env, node) for f, q in zip(fields, p.patterns)]
                        steps += [self._attr_pattern(v, f, q, env, node) for f, q in zip(p.kwd_attrs, p.kwd_patterns)]
                        out += self._and(s3, steps)
            return out
        self.taint(st, "unsupported pattern")
        return [(st, False)]

    def _attr_pattern(self, v, f, q, env, node):
        def go(s):
            res = []
            for s2, w in self.getattr(s, v, f, node):
                if isinstance(w, ExcV):
                    res.append((s2, False))
                else:
                    res += self.pattern(s2, q, w, env, node)
            return res
        return go

    # ------------------------------------------------------------- mappings
    def dict_find(self, st, r, k):
        """which of the entries a key meets: list of (state, key | None | UnknownV)"""
        if k in r.d:
            return [(st, k)]
        if isinstance(k, UnknownV):
            return [(st, k)]
        cur, out = [st], []
        for q in r.d:
            if not self.may_meet(q, k):
                continue
            if len(cur) > 40:
                return [(st, UnknownV("mapping"))]
            nxt = []
            for s in cur:
                for s2, b in self.eq(s, q, k, None):
                    if isinstance(b, UnknownV):
                        out.append((s2, b))
                    elif b is True:
                        out.append((s2, q))
                    elif b is False:
                        nxt.append(s2)
                    else:
                        for s3, t in self.truth(s2, b):
                            if t:
                                out.append((s3, q))
                            else:
                                nxt.append(s3)
            cur = nxt
        return out + [(s, None) for s in cur]

    def may_meet(self, a, b):
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return len(a.items) == len(b.items) and all(a2 == b2 or isinstance(a2, str) and a2 == b2 or self.may_meet(a2, b2) for a2, b2 in zip(a.items, b.items))
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return a == b or a.cat() in ("num", "bool") and b.cat() in ("num", "bool") and a.v == b.v
        sym = (Atom, Rat)
        if isinstance(a, sym) or isinstance(b, sym):
            for x in (a, b):
                if not isinstance(x, sym) and not (isinstance(x, Const) and (x.cat() in ("num", "bool") or x.v is None or isinstance(x.v, str))):
                    return False
            return True
        return False

    # -------------------------------------------------------- cached functions
    def cached_call(self, st, o, args, kw, node):
        fn, ref = o.items
        k = TupleV([self.key(st, a) for a in args] + [TupleV([n, self.key(st, v)]) for n, v in sorted(kw.items())])
        out = []
        for s, q in self.dict_find(st, self.rec(st, ref), k):
            if isinstance(q, UnknownV):
                out.append((s, q))
            elif q is not None:
                out.append((s, self.res(s, self.rec(s, ref).d[q])))
            else:
                for s2, v in self.call(s, fn, args, kw, node):
                    if not isinstance(v, ExcV):
                        self.mut(s2, ref).d[k] = v
                    out.append((s2, v))
        return out
