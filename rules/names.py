"""C18: every name, attribute, module member, parameter and keyword an operation
uses exists (queries over the parsed package, its class hierarchy and the
sources of the libraries it is given curves' parts by)."""
import ast
import builtins
import importlib
import os
import sys
import sysconfig
from . import rule

STDLIB = {"math", "inspect", "bisect", "warnings", "functools", "itertools", "operator", "collections", "copy", "weakref", "sys", "os", "abc", "numbers", "types", "typing", "re", "json", "datetime", "time", "enum"}
BUILTIN_TYPES = [object, int, float, str, bytes, list, dict, tuple, set, frozenset, bool, complex, range, slice, property, classmethod, staticmethod, type, BaseException,
                 type(lambda: 0), type((lambda: 0).__code__), type(iter([])), type(x for x in ()), type(min), memoryview]


def functions(program):
    """(module, class or None, function node), nested functions inside"""
    for m in program.modules.values():
        if m.name.startswith("_driver"):
            continue
        yield from _functions(m.tree.body, m, None)


def _functions(body, m, cls):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield m, getattr(n, "_cls", None), n
        elif isinstance(n, ast.ClassDef):
            yield from _functions(n.body, m, n)
        elif isinstance(n, (ast.If, ast.Try)):
            yield from _functions(n.body, m, cls)
            yield from _functions(n.orelse, m, cls)


def qual(cls, fn):
    return (cls.qualname + "." if cls else "") + fn.name


def at(m, n):
    return "%s:%d" % (os.path.basename(m.path), n.lineno)


def rel(program, m):
    return os.path.relpath(m.path, program.root)


def unreferenced_private(program):
    """private functions nothing refers to: no operation runs them"""
    used = set()
    for m in program.modules.values():
        if m.name.startswith("_driver"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                used.add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                used.add(n.id)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                used.add(n.value)
            elif isinstance(n, ast.ImportFrom):
                used.update(a.name for a in n.names)
    out = set()
    for m, c, f in functions(program):
        if f.name.startswith("_") and not f.name.startswith("__") and f.name not in used:
            out.add(f)
    return out


# ------------------------------------------------------------------ names


class Scope:
    def __init__(self, node, parent):
        self.node = node
        self.parent = parent
        self.bound = set()
        self.globals = set()
        self.nonlocals = set()
        self.known = set()

    def add_target(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.bound.add(n.id)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def own_nodes(body):
    """nodes of a body, not entering nested functions, classes, comprehensions"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += n.decorator_list
            if not isinstance(n, ast.ClassDef):
                todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
            else:
                todo += n.bases
            continue
        if isinstance(n, ast.Lambda):
            todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        todo += list(ast.iter_child_nodes(n))


def bindings(fn):
    out = set(params(fn))
    glob, nonl = set(), set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for n in own_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
    return out - glob - nonl, glob, nonl


class Flow:
    """may-reach: the locals some assignment of which reaches each use"""

    def __init__(self, fn, local, report):
        self.local = local
        self.report = report
        self.fn = fn

    def run(self):
        state = set(params(self.fn))
        body = self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)]
        self.block(body, state)

    def expr(self, e, st):
        """reads in e, then its assignments (walrus)"""
        if e is None:
            return
        for n in own_nodes([e]):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in st:
                # comprehension variables bind inside
                if n.id not in self.comp:
                    self.report(n)
            elif isinstance(n, ast.NamedExpr):
                st.add(n.target.id)

    comp = frozenset()

    def bind(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)

    def unbind(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                st.discard(n.id)

    def block(self, body, st):
        """state after the block, None when it does not end"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, st):
        comps = set()
        for n in ast.walk(s):
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        comps.add(x.id)
        self.comp = comps
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            st = set(st)
            st.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, ast.Assign):
            st = set(st)
            self.expr(s.value, st)
            for t in s.targets:
                self.expr(t, st)
                self.bind(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            st = set(st)
            self.expr(s.value, st)
            if s.value is not None:
                self.bind(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = set(st)
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name) and s.target.id in self.local and s.target.id not in st:
                self.report(s.target)
            self.expr(s.target, st)
            self.bind(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            st = set(st)
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, ast.If):
            st = set(st)
            self.expr(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.While, ast.For)):
            st = set(st)
            if isinstance(s, ast.For):
                self.expr(s.iter, st)
            # everything the body may assign reaches its start again
            again = set(st)
            for n in own_nodes(s.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    again.add(n.id)
            if isinstance(s, ast.For):
                self.bind(s.target, again)
            else:
                self.expr(s.test, set(st))
                self.comp = comps
            self.block(s.body, set(again))
            end = self.block(s.orelse, set(again))
            return again if end is None else again | end
        if isinstance(s, ast.With):
            st = set(st)
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            inside = set(st)
            for n in own_nodes(s.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    inside.add(n.id)
            r = self.block(s.body, set(st))
            if r is not None:
                r = self.block(s.orelse, r)
            for h in s.handlers:
                x = set(inside)
                if h.name:
                    x.add(h.name)
                r = self.join(r, self.block(h.body, x))
            if s.finalbody:
                f = self.block(s.finalbody, set(inside))
                if r is not None and f is not None:
                    r = r | f
            return r
        if isinstance(s, ast.Delete):
            st = set(st)
            for t in s.targets:
                self.expr(t, st)
                self.unbind(t, st)
            return st
        if isinstance(s, (ast.Continue, ast.Break)):
            return None if False else st
        st = set(st)
        for c in ast.iter_child_nodes(s):
            self.expr(c, st)
        return st


@rule("C18")
def names(program):
    """every name read is bound: in the function, around it, in the module or as
    a builtin; a local is read only where an assignment to it reaches"""
    res = {"rule": "names are bound where they are read", "instances": 0, "findings": [], "functions": [], "floor": 500}
    dead = unreferenced_private(program)

    def visit(m, cls, fn, outer, name):
        local, glob, nonl = bindings(fn)
        here = outer | local

        def bad(n, why):
            res["findings"].append({"message": "%s reads the name %s, %s" % (name, n.id, why), "at": at(m, n)})

        def unreached(n):
            bad(n, "which no assignment reaches")
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        seen_comp = set()
        for n in own_nodes(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                res["instances"] += 1
                if n.id in here or n.id in m.defs or hasattr(builtins, n.id) or n.id in ("__file__", "__name__"):
                    continue
                if any(program.find(s, n.id) for s in m.stars):
                    continue
                if n.id == "__class__" and cls:
                    continue
                bad(n, "which is bound nowhere")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                visit(m, cls, n, here, name + "." + getattr(n, "name", "lambda"))
        Flow(fn, local, unreached).run()
    for m, cls, fn in functions(program):
        if fn in dead:
            continue
        res["functions"].append((rel(program, m), qual(cls, fn)))
        visit(m, cls, fn, set(), qual(cls, fn))
    dedupe(res)
    return res


def dedupe(res):
    seen = set()
    out = []
    for f in res["findings"]:
        k = (f["message"], f["at"])
        if k not in seen:
            seen.add(k)
            out.append(f)
    res["findings"] = out


# --------------------------------------------------------------- attributes


def instance_attributes(program):
    """class -> names its methods store on self (or another receiver's own)"""
    out = {}
    for m, c, f in functions(program):
        if c is None or not f.args.args:
            continue
        me = f.args.args[0].arg
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                out.setdefault(c, set()).add(n.attr)
    return out


def subclasses(program):
    out = {}
    for c in all_classes(program):
        for k in program.mro(c):
            out.setdefault(k, set()).add(c)
    return out


def all_classes(program):
    def inner(c):
        yield c
        for v in c.members.values():
            if v[0] == "class":
                yield from inner(v[1])
    for m in program.modules.values():
        if m.name.startswith("_driver"):
            continue
        for d in m.defs.values():
            if d[0] == "class":
                yield from inner(d[1])


def self_names(fn):
    """names that stand for self inside fn and the functions nested in it"""
    return fn.args.args[0].arg if fn.args.args else None


def guarded(fn):
    """attribute names asked for with hasattr / getattr in fn"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
    return out


OBJ = set(dir(object))


def exists_on(program, attrs, subs, c, name, also_subclasses=True):
    if name in OBJ or name in ("__dict__", "__class__", "__name__", "__func__", "__self__"):
        return True
    if program.has_ext_base(c) and any(not _is_abc(b) for k in program.mro(c) for b in k.base_exprs if program_base(program, k, b) is None):
        return True
    if program.lookup(c, name)[0] is not None:
        return True
    if any(name in attrs.get(k, ()) for k in program.mro(c)):
        return True
    if also_subclasses:
        for s in subs.get(c, ()):
            if name in s.members or name in attrs.get(s, ()):
                return True
    return False


def program_base(program, k, b):
    i = k.base_exprs.index(b)
    return program.bases(k)[i]


def _is_abc(b):
    return isinstance(b, ast.Name) and b.id in ("ABC", "object") or isinstance(b, ast.Attribute) and b.attr == "ABC"


@rule("C18")
def own_attributes(program):
    """self.X, cls.X, super().X and Class.X exist in the class hierarchy; what is
    stored on self is no property without setter and no method that is called"""
    res = {"rule": "attributes of classes and of self exist", "instances": 0, "findings": [], "functions": [], "floor": 500}
    attrs = instance_attributes(program)
    subs = subclasses(program)
    dead = unreferenced_private(program)
    called = set()
    for m, c, f in functions(program):
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                d = program.find(m.name, v.id) if isinstance(v, ast.Name) else None
                if isinstance(v, ast.Name) and (v.id == "cls" or d and d[0] in ("class", "module", "ext")):
                    continue
                called.add(n.func.attr)
    for m, c, f in functions(program):
        if f in dead:
            continue
        name = qual(c, f)
        kind = None
        if c is not None and f.name in c.members:
            v = c.members[f.name]
            kind = v[2] if v[0] == "func" else "method"
        me = self_names(f) if c is not None and kind != "static" else None
        ok = guarded(f)
        shadow = {p for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)) for p in params(n)}
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(f):
            if not isinstance(n, ast.Attribute):
                continue
            v = n.value
            if isinstance(v, ast.Name) and me and v.id == me and me not in shadow and me not in stored:
                res["instances"] += 1
                if isinstance(n.ctx, ast.Load):
                    if n.attr not in ok and not exists_on(program, attrs, subs, c, n.attr):
                        res["findings"].append({"message": "%s uses %s.%s, which no class of its hierarchy has" % (name, me, n.attr), "at": at(m, n)})
                else:
                    for k in sorted(subs.get(c, ()), key=lambda k: k.qualname):
                        w, mem = program.lookup(k, n.attr)
                        if mem is not None and mem[0] == "prop" and "setter" not in mem[1]:
                            res["findings"].append({"message": "%s stores %s.%s, a property of %s that cannot be set" % (name, me, n.attr, w.qualname), "at": at(m, n)})
                        elif mem is not None and mem[0] == "func" and kind == "method" and n.attr in called:
                            res["findings"].append({"message": "%s stores %s.%s over the method of %s, which is called elsewhere" % (name, me, n.attr, w.qualname), "at": at(m, n)})
            elif isinstance(v, ast.Name) and isinstance(n.ctx, ast.Load) and v.id not in stored and v.id not in params(f) and v.id not in shadow:
                d = local_import(program, m, f, v.id)
                if d is None:
                    continue
                if d[0] == "class":
                    res["instances"] += 1
                    if not exists_on(program, attrs, subs, d[1], n.attr, False):
                        res["findings"].append({"message": "%s uses %s.%s, which that class does not have" % (name, v.id, n.attr), "at": at(m, n)})
                elif d[0] == "module":
                    res["instances"] += 1
                    if program.find(d[1].name, n.attr) is None:
                        res["findings"].append({"message": "%s uses %s.%s, which that module does not have" % (name, v.id, n.attr), "at": at(m, n)})
                elif d[0] == "ext":
                    e = external_members(d[1])
                    if e is not None:
                        res["instances"] += 1
                        if n.attr not in e:
                            res["findings"].append({"message": "%s uses %s.%s, which %s does not have" % (name, v.id, n.attr, d[1]), "at": at(m, n)})
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
                res["instances"] += 1
                if n.attr in OBJ or program.has_ext_base(c) and not all(_is_abc(b) for k in program.mro(c) for b in k.base_exprs if program_base(program, k, b) is None):
                    continue
                if program.lookup(c, n.attr, after=c)[0] is None and not any(n.attr in attrs.get(k, ()) for k in program.mro(c)[1:]):
                    res["findings"].append({"message": "%s uses super().%s, which no base class has" % (name, n.attr), "at": at(m, n)})
    dedupe(res)
    return res


def local_import(program, m, f, name):
    """what a name means in f: (module function's imports first)"""
    for n in ast.walk(f):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    mod = program.resolve_from(m, n)
                    if mod in program.modules:
                        return program.find(mod, a.name)
                    return ("ext", mod + "." + a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    return ("ext", a.name) if a.name not in program.modules else ("module", program.modules[a.name])
    if name in bindings(f)[0]:
        return None
    return program.find(m.name, name)


_EXT = {}
SITE = [p for p in ("/opt/venv/lib/python3.12/site-packages", sysconfig.get_paths()["purelib"]) if os.path.isdir(p)]


def external_members(q):
    """the members of an external module or class, None when not known"""
    if q in _EXT:
        return _EXT[q]
    r = None
    top = q.split(".")[0]
    if top in STDLIB:
        try:
            o = importlib.import_module(top)
            for part in q.split(".")[1:]:
                o = getattr(o, part)
            r = set(dir(o))
        except (ImportError, AttributeError):
            r = None
    elif top in ("intervalpy", "pyduration"):
        r = parsed_members(q)
    _EXT[q] = r
    return r


def parsed_members(q):
    parts = q.split(".")
    if len(parts) != 2:
        return None
    for s in SITE:
        d = os.path.join(s, parts[0])
        if not os.path.isdir(d):
            continue
        for path in sorted(os.listdir(d)):
            if path.endswith(".py"):
                for n in ast.parse(open(os.path.join(d, path), encoding="utf-8").read()).body:
                    if isinstance(n, ast.ClassDef) and n.name == parts[1]:
                        out = set(OBJ)
                        for x in ast.walk(n):
                            if isinstance(x, ast.FunctionDef):
                                out.add(x.name)
                            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                out.add(x.attr)
                        for x in n.body:
                            if isinstance(x, ast.Assign):
                                out.update(t.id for t in x.targets if isinstance(t, ast.Name))
                        return out
    return None


@rule("C18")
def any_attributes(program):
    """an attribute read of any value is one that some class, library or builtin
    type provides, or that is stored somewhere"""
    res = {"rule": "attribute names exist somewhere", "instances": 0, "findings": [], "functions": [], "floor": 300}
    have = set()
    for t in BUILTIN_TYPES:
        have.update(dir(t))
    for c in all_classes(program):
        have.update(c.members)
    for m in program.modules.values():
        if m.name.startswith("_driver"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                have.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                have.add(n.args[1].value)
    for q in ("intervalpy.Interval", "pyduration.Duration"):
        have.update(parsed_members(q) or ())
    dead = unreferenced_private(program)
    ext_attrs = {"timestamp", "parameters", "kind", "T", "shape", "size", "default", "annotation", "empty", "astype", "tolist"}
    import inspect
    have.update(dir(inspect.Parameter))
    for m, c, f in functions(program):
        if f in dead:
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                root = n.value
                while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                if isinstance(root, ast.Name):
                    d = local_import(program, m, f, root.id)
                    if d is not None and d[0] == "ext":
                        continue
                    if d is not None and d[0] == "module" and isinstance(n.value, ast.Name):
                        continue
                res["instances"] += 1
                if n.attr not in have and n.attr not in ext_attrs:
                    res["findings"].append({"message": "%s reads the attribute %s, which nothing has" % (qual(c, f), n.attr), "at": at(m, n)})
    dedupe(res)
    return res


# -------------------------------------------------------------------- calls


class Sig:
    def __init__(self, fn, bound):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.required = pos[:len(pos) - nd]
        if bound and pos:
            pos = pos[1:]
            self.required = self.required[1:]
        self.pos = pos
        self.posonly = [x.arg for x in a.posonlyargs]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var = a.vararg is not None
        self.kw = a.kwarg is not None

    def wrong(self, call):
        """why a call does not fit, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if n > len(self.pos) and not self.var:
            return "takes %d positional arguments, not %d" % (len(self.pos), n)
        given = set(self.pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given:
                return "is given %s twice" % k.arg
            if k.arg not in self.pos and k.arg not in self.kwonly and not self.kw:
                return "has no parameter %s" % k.arg
            given.add(k.arg)
        if not star and not dstar:
            for r in self.required:
                if r not in given:
                    return "needs %s" % r
        if not dstar:
            for r in self.kwreq:
                if r not in given:
                    return "needs %s" % r
        return None


def constructor(program, c):
    k, mem = program.lookup(c, "__init__")
    if mem is None or mem[0] != "func":
        return None
    return Sig(mem[1], True)


def abstract_left(program, c):
    out = []
    for k in program.mro(c):
        for name, mem in k.members.items():
            fs = [mem[1]] if mem[0] == "func" else list(mem[1].values()) if mem[0] == "prop" else []
            for f in fs:
                if any((isinstance(d, ast.Name) and d.id or isinstance(d, ast.Attribute) and d.attr) in ("abstractmethod", "abstractproperty") for d in f.decorator_list):
                    w, m2 = program.lookup(c, name)
                    fs2 = [m2[1]] if m2[0] == "func" else list(m2[1].values()) if m2[0] == "prop" else []
                    if f in fs2 and is_abc(program, c):
                        out.append(name)
    return out


def is_abc(program, c):
    for k in program.mro(c):
        if any(_is_abc(b) and not (isinstance(b, ast.Name) and b.id == "object") for b in k.base_exprs):
            return True
        if any(kw.arg == "metaclass" for kw in k.node.keywords):
            return True
    return False


@rule("C18")
def calls(program):
    """arguments of a call fit the parameters of every function it may reach"""
    res = {"rule": "calls fit the parameters of what they call", "instances": 0, "findings": [], "functions": [], "floor": 400}
    dead = unreferenced_private(program)
    subs = subclasses(program)
    attrs = instance_attributes(program)
    methods = {}
    for c in all_classes(program):
        for name, mem in c.members.items():
            if mem[0] == "func":
                methods.setdefault(name, []).append((c, mem))
    other = set()
    for t in BUILTIN_TYPES:
        other.update(dir(t))
    for q in ("intervalpy.Interval", "pyduration.Duration"):
        other.update(parsed_members(q) or ())
    for c in attrs:
        other.update(attrs[c])
    for c in all_classes(program):
        for name, mem in c.members.items():
            if mem[0] == "prop" or mem[0] == "value":
                other.add(name)

    def bad(m, c, f, n, what, why):
        res["findings"].append({"message": "%s calls %s, which %s" % (qual(c, f), what, why), "at": at(m, n)})

    def fits(m, c, f, n, what, sig):
        if sig is None:
            return
        res["instances"] += 1
        why = sig.wrong(n)
        if why:
            bad(m, c, f, n, what, why)

    for m, c, f in functions(program):
        if f in dead:
            continue
        me = None
        kind = None
        if c is not None and f.name in c.members:
            v = c.members[f.name]
            kind = v[2] if v[0] == "func" else "method"
            me = self_names(f) if kind != "static" else None
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        shadow = {p for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)) for p in params(n)}
        inner = {}
        for n in ast.walk(f):
            if n is not f and isinstance(n, ast.FunctionDef):
                inner.setdefault(n.name, []).append(n)
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            t = n.func
            if isinstance(t, ast.Name):
                if t.id in stored or t.id in params(f) or t.id in shadow:
                    continue
                if t.id in inner:
                    if len(inner[t.id]) == 1:
                        fits(m, c, f, n, t.id, Sig(inner[t.id][0], False))
                    continue
                d = local_import(program, m, f, t.id)
                if d is None:
                    continue
                if d[0] == "func":
                    fits(m, c, f, n, t.id, Sig(d[1], False))
                elif d[0] == "class":
                    fits(m, c, f, n, t.id, constructor(program, d[1]))
                    left = abstract_left(program, d[1])
                    if left:
                        bad(m, c, f, n, t.id, "leaves %s abstract" % ", ".join(sorted(left)))
                continue
            if not isinstance(t, ast.Attribute):
                continue
            v = t.value
            if isinstance(v, ast.Name) and me and v.id == me and me not in stored and me not in shadow:
                # the receiver may be of any class that inherits this method
                seen = set()
                for k in sorted(subs.get(c, ()), key=lambda k: k.qualname):
                    w, mem = program.lookup(k, t.attr)
                    if program.lookup(k, f.name)[0] is not c and f.name in c.members and kind != "class":
                        # overridden there; reached through super() at most
                        pass
                    if mem is None or mem[0] != "func" or mem[1] in seen or any(t.attr in attrs.get(z, ()) for z in program.mro(k)):
                        continue
                    seen.add(mem[1])
                    if kind == "class" and mem[2] == "method":
                        continue
                    fits(m, c, f, n, "%s.%s" % (w.qualname, t.attr), Sig(mem[1], mem[2] != "static"))
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
                w, mem = program.lookup(c, t.attr, after=c)
                if mem is not None and mem[0] == "func":
                    fits(m, c, f, n, "%s.%s" % (w.qualname, t.attr), Sig(mem[1], mem[2] != "static"))
                continue
            if isinstance(v, ast.Name) and v.id not in stored and v.id not in params(f) and v.id not in shadow:
                d = local_import(program, m, f, v.id)
                if d is not None and d[0] == "class":
                    w, mem = program.lookup(d[1], t.attr)
                    if mem is not None and mem[0] == "func":
                        fits(m, c, f, n, "%s.%s" % (w.qualname, t.attr), Sig(mem[1], mem[2] == "class"))
                    continue
                if d is not None and d[0] == "module":
                    g = program.find(d[1].name, t.attr)
                    if g is not None and g[0] == "func":
                        fits(m, c, f, n, "%s.%s" % (v.id, t.attr), Sig(g[1], False))
                    elif g is not None and g[0] == "class":
                        fits(m, c, f, n, "%s.%s" % (v.id, t.attr), constructor(program, g[1]))
                    continue
                if d is not None and d[0] == "ext":
                    continue
            # a receiver of unknown type: the method is one of the package's
            if t.attr in other or t.attr not in methods:
                continue
            res["instances"] += 1
            verdicts = [(k, Sig(mem[1], mem[2] != "static").wrong(n)) for k, mem in methods[t.attr]]
            good = [k for k, why in verdicts if why is None]
            for k, why in verdicts:
                # a call that fits a class is made to its subclasses as well
                if why and (not good or any(g in program.mro(k)[1:] for g in good)):
                    bad(m, c, f, n, "%s.%s" % (k.qualname, t.attr), why)
    dedupe(res)
    return res


@rule("C18")
def imports(program):
    """what a module imports from another module of the package is defined there"""
    res = {"rule": "imported names exist", "instances": 0, "findings": [], "functions": [], "floor": 40}
    for m in program.modules.values():
        if m.name.startswith("_driver"):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            mod = program.resolve_from(m, n)
            for a in n.names:
                if mod not in program.modules:
                    top = (mod or "").split(".")[0]
                    if top == program.package:
                        res["findings"].append({"message": "%s imports from %s, which does not exist" % (m.name, mod), "at": at(m, n)})
                    continue
                if a.name == "*":
                    continue
                res["instances"] += 1
                if program.find(mod, a.name) is None:
                    res["findings"].append({"message": "%s imports %s from %s, which does not define it" % (m.name, a.name, mod), "at": at(m, n)})
    return res
