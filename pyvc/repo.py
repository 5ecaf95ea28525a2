"""Loads the real source of /repo and resolves names, classes and methods in it."""
import ast
import builtins
import os

ROOT = os.environ.get("PYVC_REPO", "/repo")
PKG = "pycid"


class FuncInfo:
    def __init__(self, module, node, cls=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = node.name
        self.qual = (cls.name + "." if cls else "") + node.name
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") if isinstance(d, ast.Attribute) else "?"
                for d in node.decorator_list]
        self.decorators = decs
        self.is_property = "property" in decs
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def __repr__(self):
        return f"<{self.module.name}:{self.qual}>"


def own_nodes(fn):
    """nodes of a function body, not descending into nested functions"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module, self.node = module, node
        self.short = node.name
        self.name = (outer.name + "." if outer else "") + node.name
        self.bases = []
        self.methods, self.classes = {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = FuncInfo(module, st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(module, st, self)

    def __repr__(self):
        return f"<class {self.name}>"


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._load(self.tree.body)

    def _load(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.funcs[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", st.module or "", a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._load(st.body)


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        for d, _, fs in os.walk(os.path.join(self.root, PKG)):
            for f in fs:
                if f.endswith(".py") and "examples" not in d:
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.modules[name] = Module(name, p)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._reg(c)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self.resolve_class(c.module, b))

    def _reg(self, c):
        self.classes[c.name] = c
        for k in c.classes.values():
            self._reg(k)

    def resolve_class(self, module, node):
        """ClassInfo for a base in the repo, or a dotted name for a library class"""
        if isinstance(node, ast.Name):
            r = self.lookup(module, node.id)
            return r if isinstance(r, ClassInfo) else (r if isinstance(r, str) else node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_class(module, node.value)
            if isinstance(base, ClassInfo):
                return base.classes.get(node.attr) or f"{base.name}.{node.attr}"
            return f"{base}.{node.attr}"
        return "?"

    def lookup(self, module, name, depth=0):
        """FuncInfo | ClassInfo | ('const', Module, ast) | dotted library name (str) | None"""
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.consts:
            return ("const", module, module.consts[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                return imp[1]
            _, mod, nm = imp
            if mod in self.modules and depth < 8:
                r = self.lookup(self.modules[mod], nm, depth + 1)
                if r is not None:
                    return r
                if f"{mod}.{nm}" in self.modules:
                    return f"{mod}.{nm}"
            return f"{mod}.{nm}" if mod else nm
        return None

    def module_attr(self, modname, name):
        if modname in self.modules:
            return self.lookup(self.modules[modname], name)
        return f"{modname}.{name}"

    def mro(self, c):
        out = []

        def go(k):
            if k in out:
                return
            out.append(k)
            if isinstance(k, ClassInfo):
                for b in k.bases:
                    go(b)
        go(c)
        return out

    def find_method(self, c, name, after=None):
        """first FuncInfo named name in the mro of c (strictly after class `after` if given)"""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def is_subclass(self, c, name):
        return any((k.name if isinstance(k, ClassInfo) else k.split(".")[-1]) == name for k in self.mro(c))

    def subclasses(self, name):
        return [c for c in self.classes.values() if self.is_subclass(c, name)]

    def func(self, qual):
        """'module:qualname' or plain qualname anywhere in the package"""
        if ":" in qual:
            m, q = qual.split(":")
            mod = self.modules.get(m)
            if mod is None:
                return None
            if "." in q:
                c, f = q.rsplit(".", 1)
                k = self.classes.get(c)
                return k.methods.get(f) if k and k.module is mod else None
            return mod.funcs.get(q)
        if "." in qual:
            c, f = qual.rsplit(".", 1)
            k = self.classes.get(c)
            return k.methods.get(f) if k else None
        hits = [m.funcs[qual] for m in self.modules.values() if qual in m.funcs]
        return hits[0] if hits else None


BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
