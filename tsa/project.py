"""Loads the syntax trees of a package and resolves names, classes, MROs."""
import ast
import os
import re
import warnings


class AnalysisError(Exception):
    """The analysis cannot give an answer (an anchor vanished, a file does not
    parse...)."""


class Func(object):
    def __init__(self, module, node, cls=None, qual=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or (
            "%s.%s%s" % (module.name, cls.name + "." if cls else "",
                         self.name))
        self.kind = "function"
        self.locals = None
        decos = [d for d in getattr(node, "decorator_list", [])]
        for d in decos:
            if isinstance(d, ast.Name) and d.id in (
                    "property", "staticmethod", "classmethod"):
                self.kind = d.id
            elif isinstance(d, ast.Attribute) and d.attr in ("setter",
                                                             "deleter"):
                self.kind = d.attr
            elif isinstance(d, ast.Name) and d.id in (
                    "lazyproperty", "cached_property"):
                self.kind = "property"
            elif isinstance(d, ast.Attribute) and d.attr in (
                    "cached_property", "abstractproperty"):
                self.kind = "property"
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                          for n in _own_nodes(node))

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def doc(self):
        try:
            return ast.get_docstring(self.node) or ""
        except TypeError:
            return ""

    def where(self):
        return "%s:%s" % (self.module.rel, self.qual.split(".", 1)[-1])

    def local_names(self):
        if self.locals is None:
            names = set(self.params)
            a = self.node.args
            for v in (a.vararg, a.kwarg):
                if v:
                    names.add(v.arg)
            glob = set()
            if isinstance(self.node, ast.Lambda):
                self.locals = names
                return names
            for n in _own_nodes(self.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
            self.locals = names - glob
        return self.locals


def _own_nodes(fn):
    """Nodes of a function body, not those of nested functions/classes or of
    comprehension scopes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                          ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # the targets are not locals; walrus targets would be
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = "%s.%s" % (module.name, node.name)
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.attrs = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = Func(module, n, self)
                if f.kind == "property":
                    self.props[n.name] = f
                elif f.kind == "setter":
                    self.setters[n.name] = f
                elif f.kind == "deleter":
                    pass
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        if (isinstance(v, ast.Call) and
                                isinstance(v.func, ast.Name) and
                                v.func.id == "property"):
                            self._prop_call(t.id, v)
                        else:
                            self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value
        self._mro = None

    def _prop_call(self, name, v):
        names = ["fget", "fset"]
        vals = dict(zip(names, v.args))
        vals.update({k.arg: k.value for k in v.keywords})
        for k, tgt in (("fget", self.props), ("fset", self.setters)):
            x = vals.get(k)
            if isinstance(x, ast.Name) and x.id in self.methods:
                tgt[name] = self.methods[x.id]
            elif isinstance(x, ast.Lambda):
                tgt[name] = Func(self.module, x, self,
                                 self.qual + "." + name)


class Module(object):
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.funcs = {}
        self.classes = {}
        self.imports = {}      # name -> ("ext", dotted) / ("repo", mod, name)
        self.assigns = {}      # name -> list of (value expr, in_branch)
        self.stars = []


class Project(object):
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.src_bytes = 0
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError("package %s not found under %s" %
                                (package, root))
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames
                                 if d not in ("tests", "__pycache__"))
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                if fn in ("setup_package.py", "conftest.py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, "rb") as fh:
                    src = fh.read()
                self.src_bytes += len(src)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError("%s does not parse: %s" % (rel, e))
                self.modules[name] = Module(name, path, rel, tree, is_pkg)
        for m in self.modules.values():
            self._scan(m, m.tree.body, False)
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.qual] = c
                for d in (c.methods, c.props, c.setters):
                    for f in d.values():
                        self.funcs[f.qual + ("#set" if d is c.setters
                                             else "")] = f
            for f in m.funcs.values():
                self.funcs[f.qual] = f

    # ------------------------------------------------------------ scanning
    def _scan(self, m, body, branch):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                m.funcs.setdefault(n.name, Func(m, n))
                if not branch:
                    m.funcs[n.name] = Func(m, n)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = Class(m, n)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    top = al.name.split(".")[0]
                    if al.asname:
                        m.imports.setdefault(al.asname,
                                             self._mod(al.name))
                    else:
                        m.imports.setdefault(top, self._mod(top))
            elif isinstance(n, ast.ImportFrom):
                src = self._from(m, n)
                for al in n.names:
                    if al.name == "*":
                        m.stars.append(src)
                        continue
                    m.imports.setdefault(al.asname or al.name,
                                         ("from", src, al.name))
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and n.value is not None:
                        m.assigns.setdefault(t.id, []).append(
                            (n.value, branch))
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.assigns.setdefault(e.id, []).append(
                                    (None, True))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target,
                                                             ast.Name):
                m.assigns.setdefault(n.target.id, []).append((None, True))
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While,
                                ast.With)):
                for fld in ("body", "orelse", "finalbody"):
                    self._scan(m, getattr(n, fld, []) or [], True)
                for h in getattr(n, "handlers", []):
                    self._scan(m, h.body, True)

    def _mod(self, dotted):
        if dotted in self.modules:
            return ("mod", dotted)
        return ("ext", dotted)

    def _from(self, m, n):
        if n.level == 0:
            return n.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        if n.module:
            parts.append(n.module)
        return ".".join(parts)

    # ---------------------------------------------------------- resolution
    def lookup(self, modname, name, seen=None):
        """('func', Func) | ('class', Class) | ('mod', name) | ('ext', dotted)
        | ('assign', Module, name) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", "%s.%s" % (modname, name))
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] in ("mod", "ext"):
                return imp
            _, src, nm = imp
            if src in self.modules:
                r = self.lookup(src, nm, seen)
                if r is not None:
                    return r
                sub = src + "." + nm
                if sub in self.modules:
                    return ("mod", sub)
                # compiled extension module of the package
                return ("ext", sub)
            sub = "%s.%s" % (src, nm)
            if sub in self.modules:
                return ("mod", sub)
            return ("ext", sub)
        if name in m.assigns:
            return ("assign", m, name)
        for src in m.stars:
            if src in self.modules:
                allv = self.modules[src].assigns.get("__all__")
                if allv and isinstance(allv[-1][0], (ast.List, ast.Tuple)):
                    names = [e.value for e in allv[-1][0].elts
                             if isinstance(e, ast.Constant)]
                    if name not in names:
                        continue
                elif name.startswith("_"):
                    continue
                r = self.lookup(src, name, seen)
                if r is not None:
                    return r
        sub = modname + "." + name
        if sub in self.modules:
            return ("mod", sub)
        return None

    def resolve_expr_class(self, module, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup(module.name, expr.id)
            if r and r[0] == "class":
                return r[1]
        elif isinstance(expr, ast.Attribute) and isinstance(
                expr.value, ast.Name):
            r = self.lookup(module.name, expr.value.id)
            if r and r[0] == "mod":
                r = self.lookup(r[1], expr.attr)
                if r and r[0] == "class":
                    return r[1]
        return None

    def mro(self, cls):
        if cls._mro is None:
            out = [cls]
            cls.ext_bases = []
            for b in cls.node.bases:
                c = self.resolve_expr_class(cls.module, b)
                if c is not None:
                    for k in self.mro(c):
                        if k in out:
                            out.remove(k)
                        out.append(k)
                    cls.ext_bases += c.ext_bases
                elif not (isinstance(b, ast.Name) and b.id == "object"):
                    cls.ext_bases.append(ast.unparse(b))
            cls._mro = out
        return cls._mro

    def find(self, cls, name, kinds=("props", "methods")):
        for c in self.mro(cls):
            for k in kinds:
                d = getattr(c, k)
                if name in d:
                    return k, d[name]
            if name in c.attrs and "attrs" not in kinds:
                return "attrs", (c, c.attrs[name])
        return None

    def cls(self, name):
        """Class by bare name; the name must be unique."""
        hits = [c for c in self.classes.values() if c.name == name]
        if not hits:
            raise AnalysisError("class %s not found in the package" % name)
        if len(hits) > 1:
            raise AnalysisError("class %s is defined %d times" %
                                (name, len(hits)))
        return hits[0]

    def func(self, name):
        hits = [f for f in self.funcs.values()
                if f.cls is None and f.name == name]
        if not hits:
            raise AnalysisError("function %s not found in the package" % name)
        if len(hits) > 1:
            raise AnalysisError("function %s is defined %d times" %
                                (name, len(hits)))
        return hits[0]


_DOCPAR = re.compile(r"^(\*{0,2}\w+(?:\s*,\s*\*{0,2}\w+)*)\s*:\s*(.*)$")


def doc_types(doc):
    """{param: type text} from a numpy-style docstring."""
    out = {}
    lines = (doc or "").splitlines()
    inpar = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s == "Parameters":
            inpar = True
            continue
        if inpar and s and i + 1 < len(lines) and \
                set(lines[i + 1].strip()) == {"-"} and \
                len(lines[i + 1].strip()) > 2:
            if s != "Parameters":
                inpar = False
        if not inpar:
            continue
        mt = _DOCPAR.match(s)
        if mt:
            for p in mt.group(1).split(","):
                out.setdefault(p.strip().lstrip("*"), mt.group(2))
    return out
