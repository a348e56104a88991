"""Program model: every module of the package under analysis, parsed, not run."""
import ast
import os


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.defs = {}      # name -> ('func', node) | ('class', ClassInfo) | ('assign', expr) | ('import', modname, attr|None)
        self.stars = []

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def __repr__(self):
        return "<module %s>" % self.name


class ClassInfo:
    def __init__(self, name, module, node, outer=None):
        self.name = name
        self.module = module
        self.node = node
        self.outer = outer
        self.members = {}   # name -> ('func', node, kind) | ('prop', {getter,setter,...}) | ('value', expr) | ('class', ClassInfo)
        self.base_exprs = node.bases
        self._mro = None

    @property
    def qualname(self):
        return (self.outer.qualname + "." if self.outer else "") + self.name

    def __repr__(self):
        return "<class %s>" % self.qualname


class Program:
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        for dirpath, dirnames, files in os.walk(base):
            dirnames[:] = [d for d in dirnames if d != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                self.add(".".join(rel), p, open(p, encoding="utf-8").read(), is_pkg)

    def add(self, name, path, text, is_pkg=False):
        tree = ast.parse(text, path)
        m = ModuleInfo(name, path, tree, is_pkg)
        self.modules[name] = m
        self._scan(m, tree.body)
        for n in ast.walk(tree):
            n._mod = m
        return m

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                m.defs[s.name] = ("class", self._class(m, s, None))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ("assign", s.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.defs[e.id] = ("unpack", s.value, i)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.defs[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.defs[a.asname] = ("import", a.name, None)
                    else:
                        m.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                mod = self.resolve_from(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(mod)
                    else:
                        m.defs[a.asname or a.name] = ("import", mod, a.name)
            elif isinstance(s, ast.If):
                self._scan(m, s.orelse)
                self._scan(m, s.body)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._scan(m, h.body)
                self._scan(m, s.body)
                self._scan(m, s.orelse)
                self._scan(m, s.finalbody)
            elif isinstance(s, ast.With):
                self._scan(m, s.body)

    @staticmethod
    def resolve_from(m, s):
        if not s.level:
            return s.module
        pkg = m.package().split(".")
        if s.level > 1:
            pkg = pkg[:-(s.level - 1)]
        return ".".join(pkg + ([s.module] if s.module else []))

    def _class(self, m, node, outer):
        c = ClassInfo(node.name, m, node, outer)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos = []
                for d in s.decorator_list:
                    if isinstance(d, ast.Name):
                        decos.append(d.id)
                    elif isinstance(d, ast.Attribute):
                        decos.append((d.value.id if isinstance(d.value, ast.Name) else "?", d.attr))
                    else:
                        decos.append("?")
                if "property" in decos or ("functools", "cached_property") in decos or "cached_property" in decos:
                    c.members[s.name] = ("prop", {"getter": s} if "property" in decos else {"getter": s, "cached": True})
                elif any(isinstance(d, tuple) and d[1] in ("setter", "deleter", "getter") for d in decos):
                    d = [d for d in decos if isinstance(d, tuple)][0]
                    old = c.members.get(d[0], ("prop", {}))
                    props = dict(old[1]) if old[0] == "prop" else {}
                    props[d[1]] = s
                    c.members[s.name] = ("prop", props)
                elif "staticmethod" in decos:
                    c.members[s.name] = ("func", s, "static")
                elif "classmethod" in decos:
                    c.members[s.name] = ("func", s, "class")
                else:
                    c.members[s.name] = ("func", s, "method" if not decos else "method")
                s._cls = c
            elif isinstance(s, ast.ClassDef):
                c.members[s.name] = ("class", self._class(m, s, c))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ("value", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.members[s.target.id] = ("value", s.value)
        return c

    def find(self, modname, name, depth=0):
        """resolve a name exported by a module, following imports of analysed modules"""
        if depth > 20:
            return None
        m = self.modules.get(modname)
        if m is None:
            return None
        d = m.defs.get(name)
        if d is None:
            if modname + "." + name in self.modules:
                return ("module", self.modules[modname + "." + name])
            for s in m.stars:
                r = self.find(s, name, depth + 1)
                if r is not None:
                    return r
            return None
        if d[0] == "import":
            _, mod, attr = d
            if attr is None:
                if mod in self.modules:
                    return ("module", self.modules[mod])
                return ("ext", mod)
            if mod in self.modules:
                return self.find(mod, attr, depth + 1)
            return ("ext", mod + "." + attr)
        return d + (m,)

    def bases(self, c):
        b = getattr(c, "local_bases", None)
        if b is not None:
            return b
        out = []
        for b in c.base_exprs:
            r = None
            if isinstance(b, ast.Name):
                r = self.find(c.module.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                q = self.find(c.module.name, b.value.id)
                if q and q[0] == "module":
                    r = self.find(q[1].name, b.attr)
            if r and r[0] == "class":
                out.append(r[1])
            else:
                out.append(None)
        return out

    def mro(self, c):
        if c._mro is None:
            seqs = []
            bs = [b for b in self.bases(c) if b is not None]
            for b in bs:
                seqs.append(list(self.mro(b)))
            seqs.append(list(bs))
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        del s[0]
            c._mro = out
        return c._mro

    def has_ext_base(self, c):
        return any(b is None for k in self.mro(c) for b in self.bases(k))

    def lookup(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.members:
                return k, k.members[name]
        return None, None

    def classes(self):
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "class":
                    yield d[1]
