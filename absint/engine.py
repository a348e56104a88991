"""Abstract interpreter over the syntax tree of the package.

Forward abstract interpretation with trace partitioning: a state carries a
heap of abstract records (value numbers, see terms.py) and the facts under
which it is reached (nullness, booleans, linear relations, see facts.py).
Branches the facts do not decide split the state.  Loops over sequences of
unknown length are peeled and then summarised by forgetting what the body
writes.  The analysed package is parsed, never imported or executed.
"""
import ast
import collections
import types
from .values import *
from .program import Program, ClassInfo


class Stop(Exception):
    """the analysis gave up (budget); nothing is concluded"""


BUILTIN_NAMES = {
    "len", "range", "enumerate", "zip", "map", "filter", "list", "tuple", "set", "dict", "sorted", "reversed",
    "min", "max", "sum", "abs", "round", "int", "float", "bool", "str", "isinstance", "issubclass", "callable",
    "type", "getattr", "hasattr", "setattr", "any", "all", "iter", "next", "print", "repr", "id", "pow", "divmod",
    "super", "frozenset", "object", "bytes", "delattr", "vars", "slice", "hash", "NotImplemented", "property",
    "staticmethod", "classmethod", "memoryview", "bytearray", "complex", "format", "locals", "globals",
}
EXC_PARENT = {
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AssertionError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OverflowError": "ArithmeticError",
    "BaseException": None, "DeprecationWarning": "Warning", "Warning": "Exception", "RecursionError": "RuntimeError",
    "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "OSError": "Exception", "EOFError": "Exception", "FloatingPointError": "ArithmeticError", "UnicodeError": "ValueError",
}


def exc_is(name, target):
    while name is not None:
        if name == target:
            return True
        name = EXC_PARENT.get(name, "Exception" if name != "Exception" and name != "BaseException" else None)
    return False


NTUPLE = [()]
BUILTIN_ATTRS = {"list": (list, collections.deque), "set": (set,), "iter": (type(iter([])), types.GeneratorType),
                 "dict": (dict, collections.defaultdict, collections.OrderedDict, collections.Counter)}


class Frame:
    __slots__ = ("func", "node")

    def __init__(self, func, node):
        self.func = func
        self.node = node


class Core:
    MAX_STEPS = 3000000
    MAX_OUT = 6000
    PEEL = 3
    MAX_DEPTH = 60
    MAX_REC = 10

    def __init__(self, program):
        self.p = program
        self.stack = []
        self.steps = 0
        self._ref = 0
        self.local_classes = []
        self.analysed = set()      # functions entered
        self.sites = set()         # (file, line) of branch points decided
        self.n_splits = 0
        self.n_loops = 0
        self.reports = []

    # ------------------------------------------------------------ heap
    def new(self, st, rec, kind):
        self._ref += 1
        r = Ref(self._ref, kind)
        st.heap[r.id] = rec
        return r

    def newlist(self, st, vals, kind="list"):
        return self.new(st, Lst([("e", v) for v in vals], kind), "list" if kind == "list" else kind)

    def rec(self, st, ref):
        return st.heap[ref.id]

    def mut(self, st, ref):
        r = st.heap[ref.id].copy()
        st.heap[ref.id] = r
        return r

    def res(self, st, v):
        """resolve a value under the facts of the state"""
        if isinstance(v, (Atom, Rat)):
            if st.facts.subst:
                v = st.facts.norm(v)
            if isinstance(v, Atom):
                if v.nullable and st.facts.nulls.get(v) is True:
                    return NONE
                if v.kind == "bool":
                    b = st.facts.bools.get(v)
                    if b is not None:
                        return TRUE if b else FALSE
        return v

    # ------------------------------------------------------- exceptions
    def exc(self, st, name, node, msg="", explicit=False):
        e = ExcV(ExcObj(name, (Const(msg),)), node, explicit, self.where(node))
        return [(st, e)]

    def where(self, node):
        f = self.stack[-1].func if self.stack else None
        m = getattr(node, "_mod", None)
        path = m.path if m is not None else "?"
        return (path, getattr(node, "lineno", 0), f.qual() if f is not None else "<module>")

    def taint(self, st, why):
        if st.taint is None:
            st.taint = why

    def unk(self, st, why):
        return UnknownV(why)

    # ------------------------------------------------------- null split
    def denull(self, st, v):
        v = self.res(st, v)
        if isinstance(v, Atom) and v.nullable:
            r = st.facts.null(v)
            if r is False:
                return [(st, v)]
            if r is True:
                return [(st, NONE)]
            out = []
            f = st.facts.with_null(v, True)
            if f is not None:
                s = st.fork()
                s.facts = f
                out.append((s, NONE))
            f = st.facts.with_null(v, False)
            if f is not None:
                s = st.fork()
                s.facts = f
                out.append((s, v))
            self.n_splits += 1
            return out
        return [(st, v)]

    def split_bool(self, st, a):
        """split on a boolean atom"""
        b = st.facts.boolean(a)
        if b is not None:
            return [(st, b)]
        out = []
        for v in (True, False):
            f = st.facts.with_bool(a, v)
            if f is not None:
                s = st.fork()
                s.facts = f
                out.append((s, v))
        self.n_splits += 1
        return out

    def split_cmp(self, st, v, op):
        """split on  v op 0"""
        r = st.facts.cmp(v, op)
        if r is not None:
            return [(st, r)]
        out = []
        f = st.facts.with_cmp(v, op)
        if f is not None:
            s = st.fork()
            s.facts = f
            out.append((s, True))
        if op == "<":
            f = st.facts.with_cmp(r_neg(v), "<=")
        elif op == "<=":
            f = st.facts.with_cmp(r_neg(v), "<")
        elif op == "=":
            f = st.facts.with_cmp(v, "!=")
        if f is not None:
            s = st.fork()
            s.facts = f
            out.append((s, False))
        self.n_splits += 1
        return out

    def split3(self, st, v):
        """split on the sign of v: list of (state, -1|0|1)"""
        out = []
        for s, lt in self.split_cmp(st, v, "<"):
            if lt:
                out.append((s, -1))
            else:
                for s2, eq in self.split_cmp(s, v, "="):
                    out.append((s2, 0 if eq else 1))
        return out

    # ------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        v = self.res(st, v)
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, (Atom, Rat)):
            if isinstance(v, Atom) and v.nullable and st.facts.null(v) is not False:
                out = []
                for s, w in self.denull(st, v):
                    out += self.truth(s, w, node)
                return out
            kind = v.kind if isinstance(v, Atom) else "num"
            if kind == "bool":
                return self.split_bool(st, v)
            if kind == "num":
                return [(s, not b) for s, b in self.split_cmp(st, v, "=")]
            if kind == "interval":
                return [(s, not b) for s, b in self.ival_empty(st, v)]
            if kind in ("func", "obj", "duration", "type"):
                return [(st, True)]
            if kind == "str":
                return self.split_bool(st, atom("nonempty", v, kind="bool"))
        if isinstance(v, TupleV):
            return [(st, bool(v.items))]
        if isinstance(v, SeqV):
            return [(st, True)]
        if isinstance(v, IvalV):
            return [(s, not b) for s, b in self.ival_empty(st, v)]
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Lst):
                if r.known():
                    return [(st, bool(r.segs))]
                return [(s, not b) for s, b in self.split_cmp(st, self.list_len(st, v), "=")]
            if isinstance(r, Dct):
                return [(st, bool(r.d))]
            if isinstance(r, Obj):
                for m in ("__bool__", "__len__"):
                    k, mem = self.p.lookup(r.cls, m)
                    if mem is not None:
                        out = []
                        for s, w in self.call_method(st, v, m, [], {}, node):
                            if isinstance(w, ExcV):
                                out.append((s, w))
                            else:
                                out += self.truth(s, w, node)
                        return out
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV, OpM, ExcObj, SymSeq)):
            return [(st, True)]
        s1 = st.fork()
        self.taint(s1, "branch on an unknown value (%r) at line %s" % (v, getattr(node, "lineno", "?")))
        s2 = s1.fork()
        return [(s1, True), (s2, False)]

    # -------------------------------------------------------- conditions
    def cond(self, n, st, env):
        """list of (state, True|False|ExcV)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            out = []
            for i, e in enumerate(n.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(e, s, env):
                        if isinstance(b, ExcV) or b != isand:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(s, isand) for s in cur]
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, ExcV) else not b) for s, b in self.cond(n.operand, st, env)]
        out = []
        for s, v in self.ev(n, st, env):
            if isinstance(v, ExcV):
                out.append((s, v))
            else:
                out += self.truth(s, v, n)
        return out

    def branch(self, n, st, env):
        """cond + path recording"""
        out = []
        r = self.cond(n, st, env)
        split = len(r) > 1
        w = self.where(n)
        self.sites.add((w[0], w[1]))
        for s, b in r:
            if split and not isinstance(b, ExcV):
                s.path = (s.path, (w, b))
            out.append((s, b))
        return out

    # ------------------------------------------------------- expressions
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.MAX_STEPS:
            raise Stop("step budget")

    def ev(self, n, st, env):
        self.tick()
        h = getattr(self, "e_" + type(n).__name__, None)
        if h is None:
            return [(st, self.unk(st, "unsupported expression %s" % type(n).__name__))]
        r = h(n, st, env)
        if len(r) > self.MAX_OUT:
            raise Stop("too many partitions")
        return r

    def evs(self, nodes, st, env):
        """evaluate in order: list of (state, [values] | ExcV)"""
        cur = [(st, [])]
        out = []
        for e in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s, env):
                    if isinstance(v, ExcV):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return out + cur

    def e_Constant(self, n, st, env):
        v = n.value
        if isinstance(v, float) and v.is_integer() and abs(v) < 1e15:
            return [(st, Const(int(v)))]
        if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
            from fractions import Fraction
            f = Fraction(repr(v))
            return [(st, Const(f))]
        if v is Ellipsis:
            return [(st, NONE)]
        return [(st, Const(v))]

    def e_Name(self, n, st, env):
        return self.load(n.id, st, env, n)

    def load(self, name, st, env, node):
        e = env
        while e is not None:
            r = st.heap[e.id]
            if name in r.vars:
                v = r.vars[name]
                if v is None:
                    return self.exc(st, "UnboundLocalError", node, name)
                return [(st, self.res(st, v))]
            if name in r.globs:
                break
            e = r.parent
        mod = st.heap[env.id].mod
        return self.load_global(name, mod, st, node)

    def load_global(self, name, mod, st, node):
        key = (mod.name, name)
        if key in st.glob:
            return [(st, self.res(st, st.glob[key]))]
        d = self.p.find(mod.name, name)
        if d is not None:
            return self.resolve_def(d, name, st, node)
        if name in BUILTIN_NAMES:
            return [(st, ExtV(name))]
        if name in EXC_PARENT:
            return [(st, ExtV(name))]
        prim = getattr(self, "prim_" + name, None)
        if prim is not None and mod.name.startswith("_driver"):
            return [(st, ExtV("prim:" + name))]
        return self.exc(st, "NameError", node, name)

    def resolve_def(self, d, name, st, node):
        k = d[0]
        if k == "func":
            return self.make_module_func(d[1], d[2], st)
        if k == "class":
            return [(st, ClassV(d[1]))]
        if k == "module":
            return [(st, ModV(d[1]))]
        if k == "ext":
            return [(st, ExtV(d[1]))]
        if k in ("assign", "unpack"):
            m = d[-1]
            key = (m.name, name)
            if key in st.glob:
                return [(st, self.res(st, st.glob[key]))]
            env = self.mod_env(st, m)
            out = []
            for s, v in self.ev(d[1], st, env):
                if isinstance(v, ExcV):
                    out.append((s, v))
                    continue
                if k == "unpack":
                    for s2, items in self.unpack(s, v, None, node):
                        if isinstance(items, ExcV):
                            out.append((s2, items))
                        else:
                            s2.glob[key] = items[d[2]]
                            out.append((s2, items[d[2]]))
                    continue
                s.glob[key] = v
                out.append((s, v))
            return out
        return [(st, self.unk(st, name))]

    def mod_env(self, st, m):
        key = ("env", m.name)
        e = st.glob.get(key)
        if e is None:
            e = self.new(st, Env({}, None, None, m), "env")
            st.glob[key] = e
        return e

    def make_module_func(self, node, m, st):
        key = ("func", id(node))
        f = st.glob.get(key)
        if f is not None:
            return [(st, f)]
        env = self.mod_env(st, m)
        out = []
        for s, f in self.make_func(node, st, env, m, None):
            for s2, g in ([(s, f)] if isinstance(f, ExcV) or not node.decorator_list else self.decorate(s, f, node.decorator_list, env, node)):
                if not isinstance(g, ExcV):
                    s2.glob[key] = g
                out.append((s2, g))
        return out

    def make_func(self, node, st, env, mod, cls, kind="func"):
        a = node.args
        out = []
        for s, ds in self.evs(a.defaults, st, env):
            if isinstance(ds, ExcV):
                out.append((s, ds))
                continue
            kd = [e for e in a.kw_defaults if e is not None]
            for s2, ks in self.evs(kd, s, env):
                if isinstance(ks, ExcV):
                    out.append((s2, ks))
                    continue
                it = iter(ks)
                kws = {p.arg: next(it) for p, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None}
                f = FuncV(node, env, mod, cls, kind, tuple(ds), kws)
                out.append((s2, f))
        return out

    def e_Lambda(self, n, st, env):
        r = st.heap[env.id]
        return self.make_func(n, st, env, r.mod, r.cls, "func")

    def e_JoinedStr(self, n, st, env):
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.evs(parts, st, env):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            it = iter(vs)
            txt = []
            ok = True
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    w = self.res(s, next(it))
                    if isinstance(w, Const) and (isinstance(w.v, (str, int)) or w.v is None) and v.format_spec is None:
                        txt.append(str(w.v))
                    else:
                        ok = False
                else:
                    txt.append(v.value)
            if ok:
                out.append((s, Const("".join(txt))))
            else:
                key = tuple(self.key(s, w) for w in vs)
                out.append((s, atom("fstr", n.lineno, *key, kind="str")))
        return out

    def key(self, st, v):
        """a hashable identity of a value, for uninterpreted applications"""
        v = self.res(st, v)
        if isinstance(v, Ref):
            r = st.heap.get(v.id)
            if isinstance(r, Lst):
                return TupleV(["list"] + [TupleV([k, self.key(st, x)]) for k, x in r.segs])
            return v
        if isinstance(v, TupleV):
            return TupleV([self.key(st, x) for x in v.items])
        if isinstance(v, SeqV):
            return TupleV(["seq"] + [self.key(st, x) for x in v.vals])
        try:
            hash(v)
        except TypeError:
            return UnknownV("unhashable")
        return v

    def e_Tuple(self, n, st, env):
        return self._seq_display(n, st, env, lambda s, vs: TupleV(vs))

    def e_List(self, n, st, env):
        out = []
        for s, segs in self._segs(n.elts, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            else:
                out.append((s, self.new(s, Lst(segs), "list")))
        return out

    def e_Set(self, n, st, env):
        out = []
        for s, vs in self.evs(n.elts, st, env):
            out += [(s, vs)] if isinstance(vs, ExcV) else self.make_set(s, vs, n)
        return out

    def _segs(self, elts, st, env):
        cur = [(st, [])]
        out = []
        for e in elts:
            nxt = []
            for s, segs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, env):
                        if isinstance(v, ExcV):
                            out.append((s2, v))
                            continue
                        for s3, g in self.as_segs(s2, v, e):
                            if isinstance(g, ExcV):
                                out.append((s3, g))
                            else:
                                nxt.append((s3, segs + list(g)))
                else:
                    for s2, v in self.ev(e, s, env):
                        if isinstance(v, ExcV):
                            out.append((s2, v))
                        else:
                            nxt.append((s2, segs + [("e", v)]))
            cur = nxt
        return out + cur

    def _seq_display(self, n, st, env, build):
        out = []
        for s, segs in self._segs(n.elts, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out.append((s, build(s, [v for _, v in segs])))
            else:
                out.append((s, self.new(s, Lst(segs, "tuple"), "list")))
        return out

    def e_Dict(self, n, st, env):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.evs(nodes, st, env):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            d = {}
            it = iter(vs)
            for k in n.keys:
                if k is None:
                    o = next(it)
                    if isinstance(o, Ref) and isinstance(self.rec(s, o), Dct):
                        d.update(self.rec(s, o).d)
                    else:
                        self.taint(s, "unpacking an unknown mapping")
                    continue
                kk = self.key(s, next(it))
                d[kk] = next(it)
            out.append((s, self.new(s, Dct(d), "dict")))
        return out

    def e_IfExp(self, n, st, env):
        out = []
        for s, b in self.branch(n.test, st, env):
            if isinstance(b, ExcV):
                out.append((s, b))
            else:
                out += self.ev(n.body if b else n.orelse, s, env)
        return out

    def e_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, v in self.ev(e, s, env):
                    if isinstance(v, ExcV) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, e):
                        if isinstance(b, ExcV):
                            out.append((s3, b))
                        elif b != isand:
                            out.append((s3, self.res(s3, v)))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, env):
        if isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, ExcV) else Const(b)) for s, b in self.cond(n, st, env)]
        out = []
        for s, v in self.ev(n.operand, st, env):
            if isinstance(v, ExcV):
                out.append((s, v))
            else:
                out += self.unary(s, n.op, v, n)
        return out

    def e_NamedExpr(self, n, st, env):
        out = []
        for s, v in self.ev(n.value, st, env):
            if isinstance(v, ExcV):
                out.append((s, v))
            else:
                for s2, e in self.assign(n.target, v, s, env):
                    out.append((s2, e if e is not None else v))
        return out

    def e_BinOp(self, n, st, env):
        out = []
        for s, vs in self.evs([n.left, n.right], st, env):
            if isinstance(vs, ExcV):
                out.append((s, vs))
            else:
                out += self.binop(s, n.op, vs[0], vs[1], n)
        return out

    def e_Compare(self, n, st, env):
        out = []
        for s, l in self.ev(n.left, st, env):
            if isinstance(l, ExcV):
                out.append((s, l))
            else:
                out += self._cmp_chain(n, 0, l, s, env)
        return out

    def _cmp_chain(self, n, i, l, st, env):
        out = []
        for s, r in self.ev(n.comparators[i], st, env):
            if isinstance(r, ExcV):
                out.append((s, r))
                continue
            for s2, b in self.compare(s, n.ops[i], l, r, n):
                if isinstance(b, (ExcV, UnknownV)) or not isinstance(b, bool):
                    out.append((s2, b))
                elif b and i + 1 < len(n.ops):
                    out += self._cmp_chain(n, i + 1, r, s2, env)
                else:
                    out.append((s2, Const(b)))
        return out

    def e_Attribute(self, n, st, env):
        out = []
        for s, o in self.ev(n.value, st, env):
            if isinstance(o, ExcV):
                out.append((s, o))
            else:
                out += self.getattr(s, o, n.attr, n)
        return out

    def e_Subscript(self, n, st, env):
        out = []
        for s, o in self.ev(n.value, st, env):
            if isinstance(o, ExcV):
                out.append((s, o))
                continue
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                nodes = [p for p in parts if p is not None]
                for s2, vs in self.evs(nodes, s, env):
                    if isinstance(vs, ExcV):
                        out.append((s2, vs))
                        continue
                    it = iter(vs)
                    lo, hi, step = [next(it) if p is not None else NONE for p in parts]
                    out += self.slice(s2, o, lo, hi, step, n)
            else:
                for s2, k in self.ev(n.slice, s, env):
                    if isinstance(k, ExcV):
                        out.append((s2, k))
                    else:
                        out += self.getitem(s2, o, k, n)
        return out

    def e_Starred(self, n, st, env):
        return self.ev(n.value, st, env)

    def e_Slice(self, n, st, env):
        parts = [n.lower, n.upper, n.step]
        out = []
        for s, vs in self.evs([p for p in parts if p is not None], st, env):
            if isinstance(vs, ExcV):
                out.append((s, vs))
                continue
            it = iter(vs)
            out.append((s, OpM(TupleV([next(it) if p is not None else NONE for p in parts]), "__slice__")))
        return out

    def e_Call(self, n, st, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None:
                r = st.heap[e.id]
                if r.func is not None and r.cls is not None and r.selfv is not None:
                    return [(st, SuperV(r.cls, r.selfv))]
                e = r.parent
            return [(st, self.unk(st, "super()"))]
        out = []
        for s, f in self.ev(n.func, st, env):
            if isinstance(f, ExcV):
                out.append((s, f))
                continue
            lazy = self.lazy_call(n, f, s, env) if isinstance(f, ExtV) else None
            out += lazy if lazy is not None else self._call_args(n, f, s, env)
        return out

    def _call_args(self, n, f, st, env):
        out = []
        for s, segs in self._segs(n.args, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
                continue
            for s2, kvs in self.evs([k.value for k in n.keywords], s, env):
                if isinstance(kvs, ExcV):
                    out.append((s2, kvs))
                    continue
                if not all(k == "e" for k, _ in segs):
                    # only a variadic callee can take them
                    out += self.call_open(s2, f, segs, n)
                    continue
                kw = {}
                bad = None
                for k, v in zip(n.keywords, kvs):
                    if k.arg is None:
                        v = self.res(s2, v)
                        if isinstance(v, Ref) and isinstance(self.rec(s2, v), Dct):
                            d = self.rec(s2, v)
                            for kk, vv in d.d.items():
                                if kk.v in kw:
                                    bad = "multiple values for keyword argument %s" % kk.v
                                kw[kk.v] = vv
                        else:
                            self.taint(s2, "unknown keyword arguments")
                    else:
                        if k.arg in kw:
                            bad = "multiple values for keyword argument %s" % k.arg
                        kw[k.arg] = v
                if bad:
                    out += self.exc(s2, "TypeError", n, bad)
                    continue
                out += self.call(s2, f, [v for _, v in segs], kw, n)
        return out

    def call_open(self, st, f, segs, node):
        """a call with an argument list of unknown length"""
        return [(st, self.unk(st, "call with unknown arguments"))]

    # comprehensions
    def e_ListComp(self, n, st, env):
        out = []
        for s, segs in self.comp(n, [n.elt], n.generators, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            else:
                out.append((s, self.new(s, Lst(segs), "list")))
        return out

    def e_GeneratorExp(self, n, st, env):
        out = []
        for s, segs in self.comp(n, [n.elt], n.generators, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out.append((s, SeqV([v for _, v in segs])))
            else:
                out.append((s, self.new(s, Lst(segs), "list")))
        return out

    def e_SetComp(self, n, st, env):
        out = []
        for s, segs in self.comp(n, [n.elt], n.generators, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                out += self.make_set(s, [v for _, v in segs], n)
            else:
                out.append((s, self.unk(s, "set of unknown length")))
        return out

    def e_DictComp(self, n, st, env):
        out = []
        for s, segs in self.comp(n, [n.key, n.value], n.generators, st, env):
            if isinstance(segs, ExcV):
                out.append((s, segs))
            elif all(k == "e" for k, _ in segs):
                d = {}
                for _, v in segs:
                    d[self.key(s, v.items[0])] = v.items[1]
                out.append((s, self.new(s, Dct(d), "dict")))
            else:
                out.append((s, self.unk(s, "dict of unknown length")))
        return out

    def comp(self, n, elts, gens, st, env):
        r = st.heap[env.id]
        e = self.new(st, Env({}, env, r.func, r.mod, r.cls, r.selfv), "env")
        st.heap[e.id].func = None
        return self._comp(n, elts, gens, 0, st, e)

    def _comp(self, n, elts, gens, i, st, env):
        if i == len(gens):
            out = []
            for s, vs in self.evs(elts, st, env):
                if isinstance(vs, ExcV):
                    out.append((s, vs))
                else:
                    out.append((s, [("e", vs[0] if len(vs) == 1 else TupleV(vs))]))
            return out
        g = gens[i]
        out = []
        for s, it in self.ev(g.iter, st, env):
            if isinstance(it, ExcV):
                out.append((s, it))
                continue
            for s2, segs in self.as_segs(s, it, g.iter):
                if isinstance(segs, ExcV):
                    out.append((s2, segs))
                    continue
                cur = [(s2, [])]
                for kind, v in segs:
                    nxt = []
                    for s3, acc in cur:
                        if kind == "e":
                            for s4, r in self._comp_item(n, elts, gens, i, v, s3, env):
                                if isinstance(r, ExcV):
                                    out.append((s4, r))
                                else:
                                    nxt.append((s4, acc + r))
                        else:
                            idx = atom("bound", "i%d" % i, isint=True)
                            el = self.elem(s3, v, idx, raw=True)
                            rs = self._comp_item(n, elts, gens, i, el, s3.fork(), env)
                            if len(rs) == 1 and not isinstance(rs[0][1], ExcV) and len(rs[0][1]) == 1 and rs[0][1][0][0] == "e":
                                val = self.key(rs[0][0], rs[0][1][0][1])
                                if not g.ifs:
                                    if val == self.key(s3, el):
                                        nxt.append((s3, acc + [("s", v)]))
                                    else:
                                        nxt.append((s3, acc + [("s", atom("mapseq", v, val, kind="list"))]))
                                    continue
                            u = fresh("comp", kind="list")
                            s3.havoc = True
                            nxt.append((s3, acc + [("s", u)]))
                    cur = nxt
                out += cur
        return out

    def _comp_item(self, n, elts, gens, i, v, st, env):
        out = []
        for s, e in self.assign(gens[i].target, v, st, env):
            if e is not None:
                out.append((s, e))
                continue
            cur = [s]
            for c in gens[i].ifs:
                nxt = []
                for s2 in cur:
                    for s3, b in self.branch(c, s2, env):
                        if isinstance(b, ExcV):
                            out.append((s3, b))
                        elif b:
                            nxt.append(s3)
                        else:
                            out.append((s3, []))
                cur = nxt
            for s2 in cur:
                out += self._comp(n, elts, gens, i + 1, s2, env)
        return out

    def e_Yield(self, n, st, env):
        out = []
        for s, v in (self.ev(n.value, st, env) if n.value is not None else [(st, NONE)]):
            if isinstance(v, ExcV):
                out.append((s, v))
                continue
            for s2, e in self.do_yield(s, env, v):
                out.append((s2, e if e is not None else NONE))
        return out

    def e_YieldFrom(self, n, st, env):
        out = []
        for s, v in self.ev(n.value, st, env):
            if isinstance(v, ExcV):
                out.append((s, v))
                continue
            e = env
            while s.heap[e.id].yields is None:
                e = s.heap[e.id].parent
            live = callable(s.heap[e.id].yields)
            if live and self.is_gen(s, v):
                for s2, x in self.run_gen(s, v, lambda q, w: self.do_yield(q, env, w), n):
                    out.append((s2, NONE if x is None else x if isinstance(x, ExcV) else ExcV(ExcObj("GeneratorExit", (x,)))))
                continue
            for s2, segs in self.as_segs(s, v, n):
                if isinstance(segs, ExcV):
                    out.append((s2, segs))
                    continue
                if not live:
                    r = self.mut(s2, e)
                    r.yields = r.yields + tuple(segs)
                    out.append((s2, NONE))
                    continue
                cur = [s2]
                for kind, w in segs:
                    nxt = []
                    for s3 in cur:
                        if kind != "e":
                            self.taint(s3, "a generator over a sequence of unknown length")
                            nxt.append(s3)
                            continue
                        for s4, x in self.do_yield(s3, env, w):
                            if x is None:
                                nxt.append(s4)
                            else:
                                out.append((s4, x))
                    cur = nxt
                out += [(s3, NONE) for s3 in cur]
        return out

    # -------------------------------------------------------- statements
    def block(self, stmts, st, env):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                self.tick()
                for s2, sig in self.stmt(x, s, env):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, sig))
            cur = nxt
            if len(cur) + len(out) > self.MAX_OUT:
                raise Stop("too many partitions")
            if not cur:
                break
        return out + [(s, None) for s in cur]

    def stmt(self, n, st, env):
        h = getattr(self, "s_" + type(n).__name__, None)
        if h is None:
            self.taint(st, "unsupported statement %s" % type(n).__name__)
            return [(st, None)]
        return h(n, st, env)

    def s_Expr(self, n, st, env):
        return [(s, ("exc", v) if isinstance(v, ExcV) else None) for s, v in self.ev(n.value, st, env)]

    def s_Pass(self, n, st, env):
        return [(st, None)]

    def s_Global(self, n, st, env):
        r = self.mut(st, env)
        r.globs = r.globs + tuple(n.names)
        return [(st, None)]

    def s_Nonlocal(self, n, st, env):
        r = self.mut(st, env)
        r.nonloc = r.nonloc + tuple(n.names)
        for x in n.names:
            r.vars.pop(x, None)
        return [(st, None)]

    def s_Return(self, n, st, env):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return [(s, ("exc", v) if isinstance(v, ExcV) else ("ret", v)) for s, v in self.ev(n.value, st, env)]

    def s_Break(self, n, st, env):
        return [(st, "brk")]

    def s_Continue(self, n, st, env):
        return [(st, "cont")]

    def s_Assign(self, n, st, env):
        out = []
        for s, v in self.ev(n.value, st, env):
            if isinstance(v, ExcV):
                out.append((s, ("exc", v)))
                continue
            cur = [s]
            for t in n.targets:
                nxt = []
                for s2 in cur:
                    for s3, e in self.assign(t, v, s2, env):
                        if e is not None:
                            out.append((s3, ("exc", e)))
                        else:
                            nxt.append(s3)
                cur = nxt
            out += [(s2, None) for s2 in cur]
        return out

    def s_AnnAssign(self, n, st, env):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st, env):
            if isinstance(v, ExcV):
                out.append((s, ("exc", v)))
            else:
                out += [(s2, None if e is None else ("exc", e)) for s2, e in self.assign(n.target, v, s, env)]
        return out

    def s_AugAssign(self, n, st, env):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            for s, vs in self.evs([ast.copy_location(_load(t), t), n.value], st, env):
                if isinstance(vs, ExcV):
                    out.append((s, ("exc", vs)))
                    continue
                for s2, v in self.augop(s, n.op, vs[0], vs[1], n):
                    if isinstance(v, ExcV):
                        out.append((s2, ("exc", v)))
                    else:
                        out += [(s3, None if e is None else ("exc", e)) for s3, e in self.assign(t, v, s2, env)]
            return out
        if isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, env):
                if isinstance(o, ExcV):
                    out.append((s, ("exc", o)))
                    continue
                for s1, cur in self.getattr(s, o, t.attr, t):
                    if isinstance(cur, ExcV):
                        out.append((s1, ("exc", cur)))
                        continue
                    for s2, r in self.ev(n.value, s1, env):
                        if isinstance(r, ExcV):
                            out.append((s2, ("exc", r)))
                            continue
                        for s3, v in self.augop(s2, n.op, cur, r, n):
                            if isinstance(v, ExcV):
                                out.append((s3, ("exc", v)))
                            else:
                                out += [(s4, None if e is None else ("exc", e)) for s4, e in self.setattr(s3, o, t.attr, v, n)]
            return out
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            for s, vs in self.evs([t.value, t.slice], st, env):
                if isinstance(vs, ExcV):
                    out.append((s, ("exc", vs)))
                    continue
                for s1, cur in self.getitem(s, vs[0], vs[1], t):
                    if isinstance(cur, ExcV):
                        out.append((s1, ("exc", cur)))
                        continue
                    for s2, r in self.ev(n.value, s1, env):
                        if isinstance(r, ExcV):
                            out.append((s2, ("exc", r)))
                            continue
                        for s3, v in self.augop(s2, n.op, cur, r, n):
                            if isinstance(v, ExcV):
                                out.append((s3, ("exc", v)))
                            else:
                                out += [(s4, None if e is None else ("exc", e)) for s4, e in self.setitem(s3, vs[0], vs[1], v, n)]
            return out
        self.taint(st, "unsupported augmented assignment")
        return [(st, None)]

    def augop(self, st, op, a, b, node):
        a = self.res(st, a)
        if isinstance(op, ast.Add) and isinstance(a, Ref) and isinstance(self.rec(st, a), Lst) and self.rec(st, a).kind == "list":
            out = []
            for s, segs in self.as_segs(st, b, node):
                if isinstance(segs, ExcV):
                    out.append((s, segs))
                else:
                    r = self.mut(s, a)
                    r.segs = r.segs + tuple(segs)
                    out.append((s, a))
            return out
        return self.binop(st, op, a, b, node)

    def s_Delete(self, n, st, env):
        cur = [st]
        out = []
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    r = self.mut(s, env)
                    r.vars.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        parts = [t.slice.lower, t.slice.upper]
                        for s2, vs in self.evs([t.value] + [p for p in parts if p is not None], s, env):
                            if isinstance(vs, ExcV):
                                out.append((s2, ("exc", vs)))
                                continue
                            it = iter(vs[1:])
                            lo, hi = [next(it) if p is not None else NONE for p in parts]
                            for s3, e in self.setslice(s2, vs[0], lo, hi, TupleV([]), n):
                                if e is not None:
                                    out.append((s3, ("exc", e)))
                                else:
                                    nxt.append(s3)
                        continue
                    for s2, vs in self.evs([t.value, t.slice], s, env):
                        if isinstance(vs, ExcV):
                            out.append((s2, ("exc", vs)))
                            continue
                        for s3, e in self.delitem(s2, vs[0], vs[1], n):
                            if e is not None:
                                out.append((s3, ("exc", e)))
                            else:
                                nxt.append(s3)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, env):
                        if isinstance(o, ExcV):
                            out.append((s2, ("exc", o)))
                        else:
                            if isinstance(o, Ref) and isinstance(self.rec(s2, o), Obj):
                                self.mut(s2, o).f.pop(t.attr, None)
                            nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    def s_If(self, n, st, env):
        out = []
        for s, b in self.branch(n.test, st, env):
            if isinstance(b, ExcV):
                out.append((s, ("exc", b)))
            else:
                out += self.block(n.body if b else n.orelse, s, env)
        return out

    def s_Assert(self, n, st, env):
        out = []
        for s, b in self.branch(n.test, st, env):
            if isinstance(b, ExcV):
                out.append((s, ("exc", b)))
            elif b:
                out.append((s, None))
            else:
                out += [(s2, ("exc", e)) for s2, e in self.exc(s, "AssertionError", n, "assert", explicit=True)]
        return out

    def s_Raise(self, n, st, env):
        if n.exc is None:
            e = st.glob.get("current_exc")
            if e is not None:
                return [(st, ("exc", e))]
            return [(s2, ("exc", e)) for s2, e in self.exc(st, "RuntimeError", n, "", explicit=True)]
        out = []
        for s, v in self.ev(n.exc, st, env):
            if isinstance(v, ExcV):
                out.append((s, ("exc", v)))
                continue
            if isinstance(v, ExtV) and v.name in EXC_PARENT:
                v = ExcObj(v.name)
            if isinstance(v, ClassV):
                self.is_exc_class(v.info)
                v = ExcObj(v.info.name)
            if isinstance(v, Ref) and isinstance(self.rec(s, v), Obj):
                v = ExcObj(self.rec(s, v).cls.name)
            if not isinstance(v, ExcObj):
                v = ExcObj("Exception")
            out.append((s, ("exc", ExcV(v, n, True, self.where(n)))))
        return out

    def s_Try(self, n, st, env):
        out = []
        res = self.block(n.body, st, env)
        after = []
        for s, sig in res:
            if isinstance(sig, tuple) and sig[0] == "exc":
                after += self._handle(n, s, sig[1], env)
            elif sig is None:
                after += self.block(n.orelse, s, env)
            else:
                after.append((s, sig))
        if not n.finalbody:
            return after
        for s, sig in after:
            for s2, sig2 in self.block(n.finalbody, s, env):
                out.append((s2, sig2 if sig2 is not None else sig))
        return out

    def _handle(self, n, st, e, env):
        name = e.exc.name
        for h in n.handlers:
            names = []
            if h.type is None:
                names = ["BaseException"]
            elif isinstance(h.type, ast.Tuple):
                names = [_dotted(x) for x in h.type.elts]
            else:
                names = [_dotted(h.type)]
            if any(exc_is(name, x) for x in names):
                if h.name:
                    r = self.mut(st, env)
                    r.vars[h.name] = e.exc
                old = st.glob.get("current_exc")
                st.glob["current_exc"] = e
                res = self.block(h.body, st, env)
                for s, _ in res:
                    s.glob["current_exc"] = old
                return res
        return [(st, ("exc", e))]

    def s_With(self, n, st, env):
        return self.with_items(n, n.items, st, env)

    def s_Import(self, n, st, env):
        for a in n.names:
            name = a.asname or a.name.split(".")[0]
            if a.name in self.p.modules:
                self.bind(st, env, name, ModV(self.p.modules[a.name]))
            else:
                self.bind(st, env, name, ExtV(a.name if a.asname else a.name.split(".")[0]))
        return [(st, None)]

    def s_ImportFrom(self, n, st, env):
        mod = st.heap[env.id].mod
        base = Program.resolve_from(mod, n)
        cur = [st]
        out = []
        for a in n.names:
            nxt = []
            for s in cur:
                d = self.p.find(base, a.name)
                if d is None and base in self.p.modules:
                    out += [(s2, ("exc", e)) for s2, e in self.exc(s, "ImportError", n, a.name)]
                    continue
                if d is None:
                    self.bind(s, env, a.asname or a.name, ExtV(base + "." + a.name))
                    nxt.append(s)
                    continue
                for s2, v in self.resolve_def(d, a.name, s, n):
                    if isinstance(v, ExcV):
                        out.append((s2, ("exc", v)))
                    else:
                        self.bind(s2, env, a.asname or a.name, v)
                        nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    def s_FunctionDef(self, n, st, env):
        r = st.heap[env.id]
        out = []
        for s, f in self.make_func(n, st, env, r.mod, r.cls):
            if isinstance(f, ExcV):
                out.append((s, ("exc", f)))
                continue
            for s2, g in self.decorate(s, f, n.decorator_list, env, n):
                if isinstance(g, ExcV):
                    out.append((s2, ("exc", g)))
                    continue
                self.bind(s2, env, n.name, g)
                out.append((s2, None))
        return out

    def s_ClassDef(self, n, st, env):
        r = st.heap[env.id]
        c = self.p._class(r.mod, n, None)
        self.local_classes.append(c)
        c.env = env
        todo = [c]
        while todo:
            k = todo.pop()
            for mem in k.members.values():
                if mem[0] == "class":
                    mem[1].env = env
                    todo.append(mem[1])
        out = []
        for s, bs in self.evs(n.bases, st, env):
            if isinstance(bs, ExcV):
                out.append((s, ("exc", bs)))
                continue
            c.local_bases = [b.info if isinstance(b, ClassV) else None for b in bs]
            self.bind(s, env, n.name, ClassV(c))
            out.append((s, None))
        return out

    # loops
    def s_For(self, n, st, env):
        out = []
        for s, it in self.ev(n.iter, st, env):
            if isinstance(it, ExcV):
                out.append((s, ("exc", it)))
                continue
            it = self.res(s, it)
            if isinstance(it, Ref) and isinstance(self.rec(s, it), Lst) and self.rec(s, it).kind == "list" and self.rec(s, it).known():
                out += self._for_live(n, s, it, env)
                continue
            if self.is_gen(s, it):
                out += self.for_gen(n, s, it, env)
                continue
            if isinstance(it, Ref) and isinstance(self.rec(s, it), Lst) and self.rec(s, it).kind == "iter":
                out += self.for_iter(n, s, it, env)
                continue
            for s2, segs in self.as_segs(s, it, n):
                if isinstance(segs, ExcV):
                    out.append((s2, ("exc", segs)))
                    continue
                out += self._for_segs(n, s2, segs, env)
        return out

    def _for_live(self, n, st, ref, env):
        """iteration over a list that the body may change"""
        cur = [(st, 0)]
        out = []
        done = []
        guard = 0
        while cur:
            guard += 1
            if guard > 60:
                for s, _ in cur:
                    self.taint(s, "long loop")
                    done.append(s)
                break
            nxt = []
            for s, i in cur:
                r = self.rec(s, ref)
                if not r.known():
                    rest = r.segs[i:] if all(k == "e" for k, _ in r.segs[:i]) else r.segs
                    out += self._for_segs(n, s, rest, env)
                    continue
                if i >= len(r.segs):
                    done.append(s)
                    continue
                for s2, sig in self._iter(n, s, r.segs[i][1], env):
                    if sig is None or sig == "cont":
                        nxt.append((s2, i + 1))
                    elif sig == "brk":
                        out.append((s2, None))
                    else:
                        out.append((s2, sig))
            cur = nxt
            if len(cur) > self.MAX_OUT:
                raise Stop("too many partitions in a loop")
        for s in done:
            out += self.block(n.orelse, s, env)
        return out

    def _iter(self, n, st, v, env):
        out = []
        for s, e in self.assign(n.target, v, st, env):
            if e is not None:
                out.append((s, ("exc", e)))
            else:
                out += self.block(n.body, s, env)
        return out

    def _for_segs(self, n, st, segs, env):
        cur = [st]
        out = []
        for kind, v in segs:
            nxt = []
            if kind == "e":
                for s in cur:
                    for s2, sig in self._iter(n, s, v, env):
                        if sig is None or sig == "cont":
                            nxt.append(s2)
                        elif sig == "brk":
                            out.append((s2, None))
                        else:
                            out.append((s2, sig))
            else:
                self.n_loops += 1
                live = cur
                ln = self.seg_len(v)
                for k in range(self.PEEL):
                    run = []
                    for s in live:
                        for s2, done in self.split_cmp(s, r_add(ln, Const(k), -1), "<="):
                            if done:
                                nxt.append(s2)
                            else:
                                run.append(s2)
                    live = []
                    for s in run:
                        for s2, sig in self._iter(n, s, self.elem(s, v, Const(k)), env):
                            if sig is None or sig == "cont":
                                live.append(s2)
                            elif sig == "brk":
                                out.append((s2, None))
                            else:
                                out.append((s2, sig))
                for s in live:
                    for s2, done in self.split_cmp(s, r_add(ln, Const(self.PEEL), -1), "<="):
                        if done:
                            nxt.append(s2)
                            continue
                        idx = fresh("i", isint=True)
                        el = self.elem(s2, v, idx)
                        for s3, sig in self.havoc_loop(n, s2, env, lambda q: self._iter(n, q, el, env)):
                            if sig is None:
                                nxt.append(s3)
                            else:
                                out.append((s3, sig))
            cur = nxt
            if len(cur) > self.MAX_OUT:
                raise Stop("too many partitions in a loop")
        for s in cur:
            out += self.block(n.orelse, s, env)
        return out

    def havoc_loop(self, n, st, env, run):
        """forget what the body writes, analyse one generic iteration"""
        probe = run(st.fork())
        s = st.fork()
        s.havoc = True
        changed = 0
        for s2, _ in probe:
            for k, r in s2.heap.items():
                o = st.heap.get(k)
                if o is None or o is r:
                    continue
                cur = self.mut(s, Ref(k, "?"))
                if isinstance(r, Obj):
                    for f, v in r.f.items():
                        if f not in o.f or o.f[f] is not v and o.f[f] != v:
                            cur.f[f] = UnknownV("changed by a loop")
                elif isinstance(r, Env):
                    for f, v in r.vars.items():
                        if f not in o.vars or (o.vars[f] is not v and o.vars[f] != v):
                            cur.vars[f] = UnknownV("changed by a loop")
                elif isinstance(r, Lst):
                    if o.segs != r.segs:
                        cur.segs = (("s", fresh("looplist", kind="list", meta="unknown")),)
                elif isinstance(r, Dct):
                    if o.d != r.d:
                        cur.d = {kk: UnknownV("changed by a loop") for kk in r.d}
                        cur.open = True
                changed += 1
        out = []
        for s2, sig in run(s.fork()):
            if sig in (None, "cont", "brk"):
                continue
            out.append((s2, sig))
        self.taint(s, "state after a loop of unknown length")
        out.append((s, None))
        return out

    def s_While(self, n, st, env):
        cur = [(st, 0)]
        out = []
        done = []
        rounds = 0
        while cur:
            rounds += 1
            nxt = []
            for s, und in cur:
                rs = self.branch(n.test, s, env)
                undecided = len([1 for _, b in rs if b is True]) > 0 and len([1 for _, b in rs if b is False]) > 0
                for s2, b in rs:
                    if isinstance(b, ExcV):
                        out.append((s2, ("exc", b)))
                    elif not b:
                        done.append(s2)
                    else:
                        u = und + (1 if undecided else 0)
                        if u > self.PEEL + 1 or rounds > 64:
                            self.n_loops += 1
                            for s3, sig in self.havoc_loop(n, s2, env, lambda q: self.block(n.body, q, env)):
                                if sig is None:
                                    done.append(s3)
                                else:
                                    out.append((s3, sig))
                            continue
                        body = self.block(n.body, s2, env)
                        for s3, sig in body:
                            if sig is None or sig == "cont":
                                # a loop without condition counts its splits in the body
                                k = u + (1 if not undecided and len(body) > 1 else 0)
                                nxt.append((s3, k))
                            elif sig == "brk":
                                out.append((s3, None))
                            else:
                                out.append((s3, sig))
            cur = nxt
            if len(cur) > self.MAX_OUT:
                raise Stop("too many partitions in a loop")
        for s in done:
            out += self.block(n.orelse, s, env)
        return out

    # -------------------------------------------------------- assignment
    def bind(self, st, env, name, v):
        e = env
        r = st.heap[e.id]
        if name in r.globs:
            st.glob[(r.mod.name, name)] = v
            return
        if name in r.nonloc:
            p = r.parent
            while p is not None:
                if name in st.heap[p.id].vars:
                    self.mut(st, p).vars[name] = v
                    return
                p = st.heap[p.id].parent
        r = self.mut(st, e)
        r.vars[name] = v

    def assign(self, t, v, st, env):
        """list of (state, None|ExcV)"""
        if isinstance(t, ast.Name):
            self.bind(st, env, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, env):
                if isinstance(o, ExcV):
                    out.append((s, o))
                else:
                    out += self.setattr(s, o, t.attr, v, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                parts = [t.slice.lower, t.slice.upper]
                for s, vs in self.evs([t.value] + [p for p in parts if p is not None], st, env):
                    if isinstance(vs, ExcV):
                        out.append((s, vs))
                        continue
                    it = iter(vs[1:])
                    lo, hi = [next(it) if p is not None else NONE for p in parts]
                    out += self.setslice(s, vs[0], lo, hi, v, t)
                return out
            for s, vs in self.evs([t.value, t.slice], st, env):
                if isinstance(vs, ExcV):
                    out.append((s, vs))
                else:
                    out += self.setitem(s, vs[0], vs[1], v, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            out = []
            for s, items in self.unpack(st, v, None if star else len(t.elts), t):
                if isinstance(items, ExcV):
                    out.append((s, items))
                    continue
                if star:
                    k = star[0]
                    after = len(t.elts) - k - 1
                    mid = items[k:len(items) - after]
                    lst = self.newlist(s, mid)
                    items = items[:k] + [lst] + items[len(items) - after:]
                cur = [s]
                for e, x in zip(t.elts, items):
                    nxt = []
                    for s2 in cur:
                        for s3, err in self.assign(e.value if isinstance(e, ast.Starred) else e, x, s2, env):
                            if err is not None:
                                out.append((s3, err))
                            else:
                                nxt.append(s3)
                    cur = nxt
                out += [(s2, None) for s2 in cur]
            return out
        self.taint(st, "unsupported assignment target")
        return [(st, None)]

    def unpack(self, st, v, n, node):
        """list of (state, [values]|ExcV)"""
        out = []
        for s, segs in self.as_segs(st, v, node):
            if isinstance(segs, ExcV):
                out.append((s, segs))
                continue
            if all(k == "e" for k, _ in segs):
                if n is not None and len(segs) != n:
                    out += self.exc(s, "ValueError", node, "unpack")
                else:
                    out.append((s, [x for _, x in segs]))
            elif n is not None and len(segs) == 1:
                for s2, ok in self.split_cmp(s, r_add(self.seg_len(segs[0][1]), Const(n), -1), "="):
                    if ok:
                        out.append((s2, [self.elem(s2, segs[0][1], Const(i)) for i in range(n)]))
                    else:
                        out += self.exc(s2, "ValueError", node, "unpack")
            else:
                self.taint(s, "unpacking a sequence of unknown length")
                out.append((s, [UnknownV("unpacked") for _ in range(n or 1)]))
        return out

    # ------------------------------------------------------------- calls
    def call_method(self, st, o, name, args, kw, node):
        out = []
        for s, f in self.getattr(st, o, name, node):
            if isinstance(f, ExcV):
                out.append((s, f))
            else:
                out += self.call(s, f, args, kw, node)
        return out

    def call(self, st, f, args, kw, node):
        f = self.res(st, f)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_func(st, f.func, [f.selfv] + list(args), kw, node)
            return self.call(st, f.func, [f.selfv] + list(args), kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(st, f.info, args, kw, node)
        if isinstance(f, (ExtV, OpM)):
            return self.call_model(st, f, args, kw, node)
        if isinstance(f, Ref) and isinstance(self.rec(st, f), Obj):
            r = self.rec(st, f)
            k, mem = self.p.lookup(r.cls, "__call__")
            if mem is not None:
                return self.call_method(st, f, "__call__", args, kw, node)
            return self.exc(st, "TypeError", node, "not callable")
        if isinstance(f, Atom) and f.kind == "func":
            return self.call_opaque(st, f, args, kw, node)
        if isinstance(f, Atom) and f.kind in ("obj",):
            return [(st, atom("call", f, *[self.key(st, a) for a in args], *[TupleV((k, self.key(st, v))) for k, v in sorted(kw.items())], kind="obj"))]
        if isinstance(f, (Const, TupleV, IvalV)) or isinstance(f, (Rat,)) or (isinstance(f, Atom) and f.kind == "num"):
            if isinstance(f, Atom) and f.nullable:
                pass
            return self.exc(st, "TypeError", node, "not callable")
        return [(st, self.unk(st, "call of %r" % (f,)))]

    def bind_args(self, st, f, args, kw, node):
        """dict of parameters or None on mismatch"""
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(params):
                vals[params[i]] = v
            elif a.vararg is not None:
                rest.append(v)
            else:
                return "too many arguments"
        extra = {}
        for k, v in kw.items():
            if k in vals:
                return "multiple values for argument %s" % k
            if k in params or any(p.arg == k for p in a.kwonlyargs):
                vals[k] = v
            elif a.kwarg is not None:
                extra[Const(k)] = v
            else:
                return "unexpected keyword argument %s" % k
        ds = f.defaults or ()
        for p, d in zip(params[len(params) - len(ds):], ds):
            vals.setdefault(p, d)
        for p in a.kwonlyargs:
            if p.arg not in vals:
                if f.kwdefaults and p.arg in f.kwdefaults:
                    vals[p.arg] = f.kwdefaults[p.arg]
                else:
                    return "missing argument %s" % p.arg
        for p in params:
            if p not in vals:
                return "missing argument %s" % p
        if a.vararg is not None:
            vals[a.vararg.arg] = TupleV(rest)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new(st, Dct(extra), "dict")
        return vals

    def call_func(self, st, f, args, kw, node):
        if len(self.stack) > self.MAX_DEPTH:
            return [(st, self.unk(st, "call depth"))]
        nrec = sum(1 for fr in self.stack if fr.func.node is f.node)
        if nrec > self.MAX_REC:
            self.taint(st, "recursion of %s" % f.qual())
            return [(st, self.unk(st, "recursion"))]
        vals = self.bind_args(st, f, args, kw, node)
        if isinstance(vals, str):
            return self.exc(st, "TypeError", node, vals + " calling " + f.qual())
        n = f.node
        selfv = None
        a = n.args
        params = a.posonlyargs + a.args
        if f.cls is not None and f.kind in ("method", "class") and params:
            selfv = vals[params[0].arg]
        env = self.new(st, Env(vals, f.env, f, f.mod, f.cls, selfv), "env")
        if not isinstance(n, ast.Lambda):
            for name in _locals_of(n):
                if name not in vals:
                    st.heap[env.id].vars[name] = None
        self.analysed.add((f.mod.path, f.qual(), n.lineno))
        self.stack.append(Frame(f, node))
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, st, env)
            if _is_gen(n):
                return [(st, self.new_gen(st, "func", (f, env, node)))]
            out = []
            for s, sig in self.block(n.body, st, env):
                if isinstance(sig, tuple) and sig[0] == "exc":
                    out.append((s, sig[1]))
                elif isinstance(sig, tuple):
                    out.append((s, self.res(s, sig[1])))
                else:
                    out.append((s, NONE))
            return out
        finally:
            self.stack.pop()

    def needs_decorating(self, d):
        return _deco(d) not in ("property", "staticmethod", "classmethod", "abstractmethod", "setter", "getter", "deleter",
                                "cached_property", "override", "final", "overload")

    def instantiate(self, st, c, args, kw, node):
        if self.is_exc_class(c):
            return [(st, ExcObj(c.name, args))]
        special = self.special_instance(st, c, args, kw, node)
        if special is not None:
            return special
        k, mem = self.p.lookup(c, "__new__")
        if mem is not None:
            return [(st, self.unk(st, "__new__"))]
        o = self.new(st, Obj(c, {}), "obj")
        k, mem = self.p.lookup(c, "__init__")
        if mem is None:
            return [(st, o)]
        out = []
        for s, v in self.call_method(st, o, "__init__", args, kw, node):
            out.append((s, v if isinstance(v, ExcV) else o))
        return out

    def is_exc_class(self, c):
        r = getattr(c, "_isexc", None)
        if r is None:
            r = False
            mro = self.p.mro(c)
            for i, k in enumerate(mro):
                for b in k.base_exprs:
                    if isinstance(b, ast.Name) and b.id in EXC_PARENT and not r:
                        r = True
                        chain = [x.name for x in mro[:i + 1]] + [b.id]
                        for lo, hi in zip(chain, chain[1:]):
                            EXC_PARENT.setdefault(lo, hi)
            c._isexc = r
        return r

    # -------------------------------------------------------- attributes
    def getattr(self, st, o, name, node):
        o = self.res(st, o)
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Obj):
                return self.getattr_obj(st, o, r, name, node)
            if isinstance(r, (Lst, Dct)) and not any(hasattr(c, name) for c in BUILTIN_ATTRS[r.kind if isinstance(r, Lst) else "dict"]):
                return self.exc(st, "AttributeError", node, name)
            return [(st, OpM(o, name))]
        if isinstance(o, SuperV):
            cls = self.cls_of(st, o.selfv)
            k, mem = self.p.lookup(cls, name, after=o.cls)
            if mem is None:
                return [(st, OpM(o, name))]
            return self.bind_member(st, o.selfv, k, mem, name, node)
        if isinstance(o, ClassV):
            return self.getattr_cls(st, o, name, node)
        if isinstance(o, NTUPLE[0]):
            return self.ntuple_attr(st, o, name, node)
        if isinstance(o, ModV):
            return self.load_global(name, o.info, st, node)
        if isinstance(o, FuncV):
            if name == "__name__":
                return [(st, Const(o.name))]
            return [(st, OpM(o, name))]
        if isinstance(o, Const) and o.v is None:
            return self.exc(st, "AttributeError", node, "None.%s" % name)
        if isinstance(o, Atom) and o.nullable and st.facts.null(o) is not False:
            out = []
            for s, v in self.denull(st, o):
                out += self.getattr(s, v, name, node)
            return out
        return self.getattr_model(st, o, name, node)

    def cls_of(self, st, v):
        v = self.res(st, v)
        if isinstance(v, ClassV):
            return v.info
        return self.rec(st, v).cls

    def getattr_obj(self, st, o, r, name, node):
        k, mem = self.p.lookup(r.cls, name)
        if mem is not None and mem[0] == "prop":
            if mem[1].get("cached"):
                if name in r.f:
                    return [(st, self.res(st, r.f[name]))]
                out = []
                for s, v in self.bind_member(st, o, k, mem, name, node):
                    if not isinstance(v, ExcV):
                        self.mut(s, o).f[name] = v
                    out.append((s, v))
                return out
            return self.bind_member(st, o, k, mem, name, node)
        if name in r.f:
            return [(st, self.res(st, r.f[name]))]
        if mem is not None:
            return self.bind_member(st, o, k, mem, name, node)
        if name == "__class__":
            return [(st, ClassV(r.cls))]
        if name == "__dict__":
            return [(st, OpM(o, "__dict__"))]
        if name in ("__repr__", "__str__", "__hash__", "__eq__", "__ne__", "__init__", "__setattr__", "__getattribute__"):
            return [(st, OpM(o, name))]
        k, mem = self.p.lookup(r.cls, "__getattr__")
        if mem is not None:
            return self.call_method(st, o, "__getattr__", [Const(name)], {}, node)
        return self.exc(st, "AttributeError", node, "%s has no attribute %s" % (r.cls.qualname, name))

    def bind_member(self, st, o, k, mem, name, node):
        kind = mem[0]
        if kind == "prop":
            g = mem[1].get("getter")
            if g is None:
                return self.exc(st, "AttributeError", node, name)
            out = []
            for s, f in self.cls_func(st, k, g, "method"):
                out += [(s, f)] if isinstance(f, ExcV) else self.call(s, f, [o], {}, node)
            return out
        if kind == "func":
            out = []
            fk = mem[2]
            for s, f in self.cls_func(st, k, mem[1], fk):
                if fk == "static" or isinstance(f, ExcV):
                    out.append((s, f))
                elif fk == "class":
                    out.append((s, BoundV(ClassV(o.info if isinstance(o, NTUPLE[0]) else self.cls_of(s, o)), f)))
                else:
                    out.append((s, BoundV(o, f)))
            return out
        if kind == "class":
            return [(st, ClassV(mem[1]))]
        if kind == "value":
            if self.is_enum(k):
                return self.enum_member(st, k, name, mem[1], node)
            out = []
            for s, v in self.cls_value(st, k, name, mem[1], node):
                if isinstance(v, FuncV):
                    out.append((s, BoundV(ClassV(self.cls_of(s, o)) if v.kind == "class" else o, v) if v.kind != "static" else v))
                elif isinstance(v, OpM) and v.name == "__staticmethod__":
                    out.append((s, v.recv))
                elif isinstance(v, OpM) and v.name == "__classmethod__":
                    out.append((s, BoundV(ClassV(self.cls_of(s, o)), v.recv)))
                elif isinstance(v, OpM) and v.name == "__property__":
                    out += self.call(s, v.recv.items[0], [o], {}, node)
                elif isinstance(v, Ref) and isinstance(self.rec(s, v), Obj) and self.p.lookup(self.rec(s, v).cls, "__get__")[1] is not None:
                    out += self.call_method(s, v, "__get__", [o, ClassV(self.cls_of(s, o))], {}, node)
                else:
                    out.append((s, v))
            return out
        return [(st, self.unk(st, name))]

    def cls_func(self, st, c, node, kind):
        key = ("func", id(node), id(c))
        f = st.glob.get(key)
        if f is not None:
            return [(st, f)]
        env = getattr(c, "env", None) or self.mod_env(st, c.module)
        decos = [d for d in node.decorator_list if self.needs_decorating(d)]
        ds = node.args.defaults + [d for d in node.args.kw_defaults if d is not None] + decos
        ss = [(st, env)]
        if any(isinstance(x, ast.Name) and x.id in c.members for d in ds for x in ast.walk(d)):
            ss = self.class_scope(st, c, ast.Tuple(elts=ds, ctx=ast.Load()), node.name)
        out = []
        for s0, scope in ss:
            for s, f in self.make_func(node, s0, scope, c.module, c, kind):
                if isinstance(f, ExcV):
                    out.append((s, f))
                    continue
                f.env = env
                for s2, g in (self.decorate(s, f, decos, scope, node) if decos else [(s, f)]):
                    if not isinstance(g, ExcV):
                        s2.glob[key] = g
                    out.append((s2, g))
        return out

    def cls_value(self, st, c, name, expr, node):
        key = (id(c), name)
        if key in st.cls:
            return [(st, self.res(st, st.cls[key]))]
        out = []
        for s0, env in self.class_scope(st, c, expr, name):
            for s, v in self.ev(expr, s0, env):
                if not isinstance(v, ExcV):
                    s.cls[key] = v
                out.append((s, v))
        return out

    def getattr_cls(self, st, o, name, node):
        c = o.info
        for k in self.p.mro(c):
            if (id(k), name) in st.cls:
                v = self.res(st, st.cls[(id(k), name)])
                if isinstance(v, OpM) and v.name == "__staticmethod__":
                    v = v.recv
                elif isinstance(v, OpM) and v.name == "__classmethod__":
                    v = BoundV(o, v.recv)
                return [(st, v)]
            if name in k.members:
                mem = k.members[name]
                if mem[0] == "func":
                    out = []
                    for s, f in self.cls_func(st, k, mem[1], mem[2]):
                        out.append((s, BoundV(o, f) if mem[2] == "class" else f))
                    return out
                if mem[0] == "class":
                    return [(st, ClassV(mem[1]))]
                if mem[0] == "value":
                    if self.is_enum(k):
                        return self.enum_member(st, k, name, mem[1], node)
                    return [(s, v.recv if isinstance(v, OpM) and v.name == "__staticmethod__" else
                             BoundV(o, v.recv) if isinstance(v, OpM) and v.name == "__classmethod__" else v)
                            for s, v in self.cls_value(st, k, name, mem[1], node)]
                return [(st, OpM(o, name))]
        if name in ("__name__", "__qualname__"):
            return [(st, Const(c.name))]
        if name in ("__mro__", "__dict__", "__module__", "mro", "__init__", "__doc__"):
            return [(st, OpM(o, name))]
        return self.exc(st, "AttributeError", node, "%s has no attribute %s" % (c.qualname, name))

    def setattr(self, st, o, name, v, node):
        """list of (state, None|ExcV)"""
        o = self.res(st, o)
        if isinstance(o, Ref) and isinstance(self.rec(st, o), Obj):
            r = self.rec(st, o)
            k, mem = self.p.lookup(r.cls, name)
            if mem is not None and mem[0] == "prop":
                g = mem[1].get("setter")
                if g is None:
                    return [(s, e) for s, e in self.exc(st, "AttributeError", node, "cannot set %s" % name)]
                out = []
                for s, f in self.cls_func(st, k, g, "method"):
                    for s2, w in self.call(s, f, [o, v], {}, node):
                        out.append((s2, w if isinstance(w, ExcV) else None))
                return out
            if mem is not None and mem[0] == "value" and isinstance(mem[1], ast.Call):
                out = []
                for s, d in self.cls_value(st, k, name, mem[1], node):
                    if isinstance(d, OpM) and d.name == "__property__":
                        if d.recv.items[1] == NONE:
                            out += self.exc(s, "AttributeError", node, "cannot set %s" % name)
                            continue
                        out += [(s2, w if isinstance(w, ExcV) else None) for s2, w in self.call(s, d.recv.items[1], [o, v], {}, node)]
                        continue
                    if isinstance(d, Ref) and isinstance(self.rec(s, d), Obj) and self.p.lookup(self.rec(s, d).cls, "__set__")[1] is not None:
                        out += [(s2, w if isinstance(w, ExcV) else None) for s2, w in self.call_method(s, d, "__set__", [o, v], {}, node)]
                        continue
                    self.on_write(s, o, name, v, node)
                    self.mut(s, o).f[name] = v
                    out.append((s, None))
                return out
            self.on_write(st, o, name, v, node)
            self.mut(st, o).f[name] = v
            return [(st, None)]
        if isinstance(o, ClassV):
            k = o.info
            st.cls[(id(k), name)] = v
            return [(st, None)]
        if isinstance(o, ModV):
            st.glob[(o.info.name, name)] = v
            return [(st, None)]
        if o == NONE:
            return self.exc(st, "AttributeError", node, "None.%s" % name)
        if isinstance(o, UnknownV):
            self.taint(st, "attribute of an unknown value set")
        return [(st, None)]

    def on_write(self, st, o, name, v, node):
        pass


def _deco(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?"


def _load(t):
    return ast.Name(id=t.id, ctx=ast.Load())


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return "?"


_LOCALS = {}


def _own_nodes(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
                break
            todo.append(c)


def _locals_of(fn):
    r = _LOCALS.get(id(fn))
    if r is not None:
        return r[1]
    names = set()
    drop = set()
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            todo.append(n.generators[0].iter)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            drop |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    out = names - drop
    _LOCALS[id(fn)] = (fn, out)
    return out


_GEN = {}


def _is_gen(fn):
    r = _GEN.get(id(fn))
    if r is None:
        r = (fn, any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(fn)))
        _GEN[id(fn)] = r
    return r[1]
