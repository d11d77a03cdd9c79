"""Source loader and name resolver: parses files under the analysed tree, never imports them."""
import ast
import hashlib
import os
from . import tidy


class Func(object):
    __slots__ = ("node", "mod", "qual", "cls", "name", "parent", "kind", "n_dec")

    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.kind = "func"


class Class(object):
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.methods = {}
        self.consts = {}
        self.setters = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, mod, qual + "." + st.name, self)
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                        f.kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        f.kind = "setter"
                    elif isinstance(d, ast.Attribute) and d.attr in ("abstractmethod", "abstractproperty"):
                        pass
                if f.kind == "setter":
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
                    if st.name.startswith("__") and not st.name.endswith("__"):
                        self.methods["_%s%s" % (node.name.lstrip("_"), st.name)] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
                        if t.id.startswith("__") and not t.id.endswith("__"):
                            self.consts["_%s%s" % (node.name.lstrip("_"), t.id)] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.consts[st.target.id] = st.value
        self._mro = None
        self._assigned = None

    def assigned(self):
        """attribute names assigned on self anywhere in the class"""
        if self._assigned is None:
            s = set()
            for n in ast.walk(self.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    s.add(n.attr)
            self._assigned = s
        return self._assigned


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}      # name -> ('func',Func)|('class',Class)|('mod',name)|('from',mod,name)|('expr',ast)
        self.index(tree.body)

    def index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", Func(st, self, self.name + "." + st.name))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", Class(st, self, self.name + "." + st.name))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    parts = parts[:len(parts) - st.level]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        self.names.setdefault("*", []).append(base) if isinstance(self.names.get("*"), list) else self.names.__setitem__("*", [base])
                    else:
                        self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ("unpack", st.value, i)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self.index(st.body)
                for x in getattr(st, "orelse", []):
                    self.index([x])
                for h in getattr(st, "handlers", []):
                    self.index(h.body)


class Program(object):
    def __init__(self, roots):
        self.roots = roots
        self.tidy = False    # substitute temporaries forward when a module is read
        self.override = {}   # module name -> source that stands for it
        self.mods = {}
        self.read = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        if name in self.override:
            m = self.mods[name] = Module(name, "<model of %s>" % name, ast.parse(self.override[name]), self.override[name])
            return m
        for r in self.roots:
            p = os.path.join(r, *name.split("."))
            for f in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(f):
                    src = open(f, encoding="utf-8", errors="replace").read()
                    tree = ast.parse(src, f)
                    tree = tidy.counted(tree)
                    if self.tidy:
                        tree = tidy.tidy(tree)
                    m = Module(name, f, tree, src)
                    self.read[f] = hashlib.sha256(src.encode("utf-8", "replace")).hexdigest()[:16]
                    break
            if m:
                break
        self.mods[name] = m
        return m

    def is_pkg(self, name):
        return any(os.path.isdir(os.path.join(r, *name.split("."))) for r in self.roots)

    def lookup(self, mod, name, depth=0):
        """resolve a module-level name to ('func'|'class'|'mod'|'ext'|'expr'..., payload, module)"""
        b = mod.names.get(name)
        if b is None or depth > 12:
            stars = mod.names.get("*")
            if isinstance(stars, list):
                for base in stars:
                    m = self.module(base)
                    if m:
                        r = self.lookup(m, name, depth + 1)
                        if r:
                            return r
            return None
        k = b[0]
        if k == "from":
            m = self.module(b[1])
            if m is not None:
                r = self.lookup(m, b[2], depth + 1)
                if r:
                    return r
            full = b[1] + "." + b[2]
            if self.module(full) is not None or self.is_pkg(full):
                return ("mod", full)
            return ("ext", full)
        if k == "mod":
            return ("mod", b[1])
        if k == "func":
            return ("func", b[1])
        if k == "class":
            return ("class", b[1])
        return (k, b, mod)

    def mro(self, cls):
        if cls._mro is None:
            out = [cls]
            for b in cls.node.bases:
                c = self.resolve_class(cls.mod, b)
                if isinstance(c, Class):
                    for x in self.mro(c):
                        if x not in out:
                            out.append(x)
            cls._mro = out
        return cls._mro

    def ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                r = self.resolve_class(c.mod, b)
                if isinstance(r, str):
                    out.append(r)
        return out

    def resolve_class(self, mod, e):
        """Class object, external dotted name, or None"""
        if isinstance(e, ast.Name):
            r = self.lookup(mod, e.id)
            if r is None:
                return e.id
            if r[0] == "class":
                return r[1]
            if r[0] == "ext":
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            parts = []
            x = e
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if not isinstance(x, ast.Name):
                return None
            r = self.lookup(mod, x.id)
            if r and r[0] == "mod":
                dotted = ".".join([r[1]] + parts[::-1])
                m = self.module(".".join(dotted.split(".")[:-1]))
                if m:
                    r2 = self.lookup(m, parts[0])
                    if r2 and r2[0] == "class":
                        return r2[1]
                return dotted
        return None

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.module(mod)
        if m is None:
            return None
        r = self.lookup(m, name)
        return r[1] if r and r[0] == "class" else None

    def find_func(self, qual):
        """'pkg.mod.func' or 'pkg.mod.Class.method'"""
        mod, _, name = qual.rpartition(".")
        m = self.module(mod)
        if m is not None:
            r = self.lookup(m, name)
            return r[1] if r and r[0] == "func" else None
        c = self.find_class(mod)
        if c is not None:
            return self.method(c, name)
        return None
