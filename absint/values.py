"""Abstract values, heap records and states."""
from .terms import *
from .facts import Facts


class Ref:
    __slots__ = ("id", "kind")

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "<%s %d>" % (self.kind, self.id)


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def copy(self):
        return Obj(self.cls, dict(self.f))


class Lst:
    """segments: ('e', value) | ('s', list atom)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs = tuple(segs)
        self.kind = kind

    def known(self):
        return all(s[0] == "e" for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def copy(self):
        return Lst(self.segs, self.kind)


class Dct:
    __slots__ = ("d", "open", "default")

    def __init__(self, d, open=False, default=None):
        self.d = d
        self.open = open
        self.default = default

    def copy(self):
        return Dct(dict(self.d), self.open, self.default)


class Env:
    __slots__ = ("vars", "parent", "func", "mod", "cls", "selfv", "globs", "nonloc", "yields")

    def __init__(self, vars, parent=None, func=None, mod=None, cls=None, selfv=None):
        self.vars = vars
        self.parent = parent
        self.func = func
        self.mod = mod
        self.cls = cls
        self.selfv = selfv
        self.globs = ()
        self.nonloc = ()
        self.yields = None

    def copy(self):
        e = Env(dict(self.vars), self.parent, self.func, self.mod, self.cls, self.selfv)
        e.globs = self.globs
        e.nonloc = self.nonloc
        e.yields = self.yields
        return e


class TupleV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, TupleV) and self.items == o.items

    def __hash__(self):
        return hash(("tuple", self.items))

    def __repr__(self):
        return "(%s)" % ", ".join(show(x) for x in self.items)

    def parts(self):
        return self.items

    def map_parts(self, f):
        return TupleV(f(x) for x in self.items)


class IvalV:
    """an interval with known parts; EMPTY has start None"""
    __slots__ = ("start", "end", "so", "eo")

    def __init__(self, start, end, so, eo):
        self.start = start
        self.end = end
        self.so = so
        self.eo = eo

    def _t(self):
        return (self.start, self.end, self.so, self.eo)

    def __eq__(self, o):
        return isinstance(o, IvalV) and self._t() == o._t()

    def __hash__(self):
        return hash(("ival",) + self._t())

    def parts(self):
        return self._t()

    def map_parts(self, f):
        return IvalV(*(f(x) for x in self._t()))

    def __repr__(self):
        if self.start == NONE and self.end == NONE:
            return "()"
        return "%s%s, %s%s" % ("(" if self.so == TRUE else "[" if self.so == FALSE else "?",
                               show(self.start), show(self.end),
                               ")" if self.eo == TRUE else "]" if self.eo == FALSE else "?")


EMPTY = IvalV(NONE, NONE, TRUE, TRUE)
INF = Const(float("inf"))
NINF = Const(float("-inf"))
INFINITE = IvalV(NINF, INF, TRUE, TRUE)


class FuncV:
    __slots__ = ("node", "env", "mod", "cls", "kind", "defaults", "kwdefaults", "name", "uid", "wrapped")

    def __init__(self, node, env, mod, cls=None, kind="func", defaults=None, kwdefaults=None, name=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.cls = cls
        self.kind = kind
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name or getattr(node, "name", "<lambda>")
        self.wrapped = None

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.node is self.node and o.env == self.env

    def __hash__(self):
        return hash((id(self.node), self.env))

    def qual(self):
        n = self.name
        if self.cls is not None:
            n = self.cls.qualname + "." + n
        return n

    def __repr__(self):
        return "<function %s>" % self.qual()


class BoundV:
    __slots__ = ("selfv", "func")

    def __init__(self, selfv, func):
        self.selfv = selfv
        self.func = func

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.selfv == self.selfv and o.func == self.func

    def __hash__(self):
        return hash((self.selfv, self.func))

    def __repr__(self):
        return "<bound %s of %s>" % (self.func.qual(), self.selfv)


class ClassV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.info is self.info

    def __hash__(self):
        return hash(id(self.info))

    def __repr__(self):
        return repr(self.info)


class ModV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ModV) and o.info is self.info

    def __hash__(self):
        return hash(id(self.info))


class ExtV:
    """a name outside the analysed package: module, function, class"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<%s>" % self.name


class OpM:
    """a method of a value the engine models itself"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __eq__(self, o):
        return isinstance(o, OpM) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(("opm", self.recv, self.name))

    def __repr__(self):
        return "%s.%s" % (show(self.recv), self.name)


class SuperV:
    __slots__ = ("cls", "selfv")

    def __init__(self, cls, selfv):
        self.cls = cls
        self.selfv = selfv


class SeqV:
    """an iterable with known elements (map, filter, zip, iterators …)"""
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __eq__(self, o):
        return isinstance(o, SeqV) and o.vals == self.vals

    def __hash__(self):
        return hash(("seq", self.vals))


class SymSeq:
    """an iterable of unknown length: at(i) gives its i-th element"""
    __slots__ = ("at", "length", "name", "isrange")

    def __init__(self, at, length, name, isrange=None):
        self.at = at
        self.length = length
        self.name = name
        self.isrange = isrange


class ExcObj:
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)

    def __eq__(self, o):
        return isinstance(o, ExcObj) and o.name == self.name and o.args == self.args

    def __hash__(self):
        return hash(("exc", self.name))

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(show(a) for a in self.args))


class ExcV:
    """the outcome 'an exception was raised'"""
    __slots__ = ("exc", "node", "explicit", "where")

    def __init__(self, exc, node=None, explicit=False, where=None):
        self.exc = exc
        self.node = node
        self.explicit = explicit
        self.where = where

    def __repr__(self):
        return "raise %r at %s" % (self.exc, self.where)


class UnknownV:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "?%s" % self.why

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def unk(why):
    return UnknownV(why)


class State:
    __slots__ = ("heap", "facts", "trace", "taint", "cls", "glob", "epoch", "subs", "path", "havoc", "out")

    def __init__(self):
        self.heap = {}
        self.facts = Facts()
        self.trace = None
        self.taint = None
        self.cls = {}
        self.glob = {}
        self.epoch = {}
        self.subs = ()
        self.path = None
        self.havoc = False
        self.out = ()

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.trace = self.trace
        s.taint = self.taint
        s.cls = dict(self.cls)
        s.glob = dict(self.glob)
        s.epoch = dict(self.epoch)
        s.subs = self.subs
        s.path = self.path
        s.havoc = self.havoc
        s.out = self.out
        return s

    def event(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def steps(self):
        out = []
        t = self.path
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out
