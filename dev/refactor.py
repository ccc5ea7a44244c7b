#!/usr/bin/env python3
"""False-alarm campaign: behaviour-preserving rewrites applied to every
function of a scratch copy of the package at once; every check has to stay
quiet.  Not used by the checks.

    python3 dev/refactor.py [transform ...] [--checks P01,P02]
"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

FN = (ast.FunctionDef,)
SCOPE = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp,
         ast.DictComp, ast.SetComp, ast.ClassDef)


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            (ctx is None or isinstance(n.ctx, ctx))}


def nm(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


class Blocks(ast.NodeTransformer):
    """Calls self.block(stmts) on every statement list inside functions."""
    depth = 0

    def generic_visit(self, node):
        infn = isinstance(node, FN)
        self.depth += infn
        if infn:
            prev, self.fn = getattr(self, "fn", None), node
        super().generic_visit(node)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        self.depth -= infn
        if infn:
            self.fn = prev
        return node
    n = 0

    def fresh(self, p="tmp"):
        Blocks.n += 1
        return "%s_%d" % (p, Blocks.n)

    def block(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class InvertIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(
                t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(t, s.orelse, s.body)
        return s


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        bad = set(params)
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            if n is not f and isinstance(n, SCOPE):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    bad.add(n.name)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    bad |= {x.arg for x in n.args.args}
                bad |= names(n, ast.Store)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                bad |= {(x.asname or x.name).split(".")[0] for x in n.names}
            if isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
        loc = names(f, ast.Store) - bad
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_v"
        return f


SIMPLE = (ast.Name, ast.Constant)


class Hoist(Blocks):
    """f(g(x), y+1)  ->  t1 = g(x); t2 = y+1; f(t1, t2)"""

    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
            return s
        c = s.value
        if not isinstance(c, ast.Call) or isinstance(c.func, ast.Name) and \
                c.func.id in ("locals", "super"):
            return s
        pre = []

        def h(e):
            if isinstance(e, SIMPLE) or isinstance(e, ast.Starred):
                return e
            t = self.fresh()
            pre.append(ast.Assign([nm(t, ast.Store())], e))
            return nm(t)
        if any(isinstance(a, ast.Starred) for a in c.args):
            return s
        c.args = [h(a) for a in c.args]
        for k in c.keywords:
            if k.arg:
                k.value = h(k.value)
        return pre + [s]


class ForWhile(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(
                s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id == "range" and len(s.iter.args) == 1 and not \
                any(isinstance(n, ast.Continue) for n in ast.walk(s)):
            i, e = self.fresh("ctr"), self.fresh("end")
            return [ast.Assign([nm(i, ast.Store())], ast.Constant(0)),
                    ast.Assign([nm(e, ast.Store())], s.iter.args[0]),
                    ast.While(ast.Compare(nm(i), [ast.Lt()], [nm(e)]),
                              [ast.Assign([s.target], nm(i))] + s.body +
                              [ast.AugAssign(nm(i, ast.Store()), ast.Add(),
                                             ast.Constant(1))], [])]
        return s


class ZipIndex(Blocks):
    """for a, b in zip(X, Y) -> for k in range(len(X)): a = X[k]; b = Y[k]
    only over plain names/attributes (lists, arrays, tuples)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(
                s.iter, ast.Call) and isinstance(s.iter.func, ast.Name):
            k = self.fresh("k")
            f, a = s.iter.func.id, s.iter.args

            def at(x):
                return ast.Subscript(copy.deepcopy(x), nm(k), ast.Load())
            if f == "enumerate" and len(a) == 1 and isinstance(
                    s.target, ast.Tuple) and not isinstance(a[0], ast.Call):
                return ast.For(nm(k, ast.Store()), ast.Call(nm("range"), [
                    ast.Call(nm("len"), [a[0]], [])], []), [
                    ast.Assign([s.target.elts[0]], nm(k)),
                    ast.Assign([s.target.elts[1]], at(a[0]))] + s.body, [])
            if f == "zip" and isinstance(s.target, ast.Tuple) and all(
                    isinstance(x, (ast.Name, ast.Attribute)) for x in a) and \
                    len(a) == len(s.target.elts):
                return ast.For(
                    ast.Tuple([nm(k, ast.Store()), s.target.elts[0]],
                              ast.Store()),
                    ast.Call(nm("enumerate"), [a[0]], []),
                    [ast.Assign([t], at(x)) for t, x in
                     zip(s.target.elts[1:], a[1:])] + s.body, [])
        return s


class CompLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) \
                and len(s.value.generators) == 1 and len(s.targets) == 1 and \
                isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            g = s.value.generators[0]
            if names(g.target) & (names(self.fn, ast.Store) - names(
                    s.value, ast.Store)):
                return s
            o = self.fresh("acc")
            b = [ast.Expr(ast.Call(ast.Attribute(nm(o), "append", ast.Load()),
                                   [s.value.elt], []))]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            return [ast.Assign([nm(o, ast.Store())], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, b, []),
                    ast.Assign(s.targets, nm(o))]
        return s


class LoopComp(Blocks):
    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                    s.body[0], ast.Expr) and isinstance(
                    s.body[0].value, ast.Call) and isinstance(
                    s.body[0].value.func, ast.Attribute) and \
                    s.body[0].value.func.attr == "append" and isinstance(
                    s.body[0].value.func.value, ast.Name) and isinstance(
                    p, ast.Assign) and isinstance(p.value, ast.List) and not \
                    p.value.elts and isinstance(p.targets[0], ast.Name) and \
                    p.targets[0].id == s.body[0].value.func.value.id:
                p.value = ast.ListComp(s.body[0].value.args[0], [
                    ast.comprehension(s.target, s.iter, [], 0)])
                continue
            out.append(s)
        return out


class Extract(ast.NodeTransformer):
    """A run of >=2 straight statements becomes a call to a new module-level
    function."""
    START = 0

    def visit_Module(self, m):
        self.new = []
        nested = {id(g) for f in ast.walk(m) if isinstance(f, FN)
                  for g in ast.walk(f) if g is not f}
        for f in ast.walk(m):
            if isinstance(f, ast.FunctionDef) and id(f) not in nested and \
                    not any(
                    isinstance(n, FN + (ast.Lambda,)) for n in ast.walk(f)
                    if n is not f):
                self.do(f)
        # helpers go after the imports / docstring: at the end is fine
        m.body += self.new
        return m

    def do(self, f):
        a = f.args
        loc = {x.arg for x in a.args + a.kwonlyargs}
        for v in (a.vararg, a.kwarg):
            if v:
                loc.add(v.arg)
        loc |= names(f, ast.Store)
        for n in ast.walk(f):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                loc |= {(x.asname or x.name).split(".")[0] for x in n.names}
        lists = [b for n in ast.walk(f) for b in (
            getattr(n, "body", None), getattr(n, "orelse", None))
            if isinstance(b, list) and len(b) >= 3 and isinstance(
                b[0], ast.stmt)]
        for b in lists:
            i = self.START
            while i + 2 <= len(b):
                seg = b[i:i + 3]
                if all(isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign))
                       and not (isinstance(s, ast.Expr) and isinstance(
                           s.value, ast.Constant)) for s in seg) and \
                        len(seg) >= 2 and not any(
                        isinstance(n, (ast.IfExp, ast.BoolOp)) or
                        isinstance(n, ast.Name) and n.id in (
                            "super", "locals", "warn", "e") or isinstance(
                            n, ast.Attribute) and n.attr in ("warn",) or
                        isinstance(n, ast.Name) and n.id.startswith("__")
                        or isinstance(n, ast.Attribute) and
                        n.attr.startswith("__") and not n.attr.endswith("__")
                        for s in seg for n in ast.walk(s)):
                    ins, outs = [], []
                    done = set()
                    for s in seg:
                        rd = names(s, ast.Load)
                        if isinstance(s, ast.AugAssign) and isinstance(
                                s.target, ast.Name):
                            rd.add(s.target.id)
                        for x in sorted(rd):
                            if x in loc and x not in done and x not in ins:
                                ins.append(x)
                        done |= {n.id for n in ast.walk(s) if isinstance(
                            n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    # comprehension variables are not real inputs
                    comp = set()
                    for s in seg:
                        for n in ast.walk(s):
                            if isinstance(n, ast.comprehension):
                                comp |= names(n.target)
                    ins = [x for x in ins if x not in comp]
                    outs = sorted(done - comp)
                    Blocks.n += 1
                    h = "_helper_%d" % Blocks.n
                    body = list(seg)
                    call = ast.Call(nm(h), [nm(x) for x in ins], [])
                    if outs:
                        body.append(ast.Return(
                            nm(outs[0]) if len(outs) == 1 else
                            ast.Tuple([nm(x) for x in outs], ast.Load())))
                        rep = ast.Assign([
                            nm(outs[0], ast.Store()) if len(outs) == 1 else
                            ast.Tuple([nm(x, ast.Store()) for x in outs],
                                      ast.Store())], call)
                    else:
                        rep = ast.Expr(call)
                    self.new.append(ast.FunctionDef(
                        h, ast.arguments([], [ast.arg(x) for x in ins], None,
                                         [], [], None, []), body, []))
                    b[i:i + 3] = [rep]
                i += 1


class Extract1(Extract):
    START = 1


class Ternary(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)],
                          [ast.Assign(copy.deepcopy(s.targets),
                                      s.value.orelse)])
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and \
                all(isinstance(x, ast.Assign) for x in s.body + s.orelse) and \
                ast.dump(s.body[0].targets[0]) == ast.dump(
                    s.orelse[0].targets[0]):
            return ast.Assign(s.body[0].targets, ast.IfExp(
                s.test, s.body[0].value, s.orelse[0].value))
        return s


class Guard(ast.NodeTransformer):
    """a trailing `if c: A` of a function that returns nothing becomes
    `if not c: return` + A;  if c: ..return else: B  is flattened"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and len(f.body) > 1:
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                  [ast.Return(None)], [])] + s.body
        return f


class Flatten(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(
                s.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return s


class Compare(ast.NodeTransformer):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
          ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.SW:
            return ast.Compare(c.comparators[0], [self.SW[type(c.ops[0])]()],
                               [c.left])
        return c


def pure(e):
    return not any(isinstance(n, (ast.Call, ast.Yield, ast.NamedExpr))
                   for n in ast.walk(e))


class Swap(Blocks):
    def block(self, b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign):
                tx, ty = x.targets[0], y.targets[0]

                def key(t):
                    if isinstance(t, ast.Name):
                        return t.id
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name) and t.value.id == "self":
                        return "self." + t.attr
                kx, ky = key(tx), key(ty)

                def reads(e):
                    return names(e) | {
                        "self." + n.attr for n in ast.walk(e)
                        if isinstance(n, ast.Attribute)} | {
                        "self._" + n.attr for n in ast.walk(e)
                        if isinstance(n, ast.Attribute)}
                if kx and ky and kx != ky and pure(x.value) and pure(
                        y.value) and kx not in reads(y.value) and ky not in \
                        reads(x.value) and all(
                            not k.startswith("self.") or
                            k.startswith("self._") for k in (kx, ky)):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


class KwOrder(ast.NodeTransformer):
    def visit_Call(self, c):
        self.generic_visit(c)
        if all(k.arg for k in c.keywords):
            c.keywords = c.keywords[::-1]
        return c


class Inline(Blocks):
    """t = e; <simple stmt using t once, t nowhere else>"""

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and isinstance(
                    p.targets[0], ast.Name) and len(p.targets) == 1 and \
                    isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(s.value, ast.AST):
                t = p.targets[0].id
                uses = [n for n in ast.walk(self.fn) if isinstance(
                    n, ast.Name) and n.id == t]
                here = [n for n in ast.walk(s.value) if isinstance(
                    n, ast.Name) and n.id == t]
                # t must be the first thing evaluated in s: accept s = pure
                # apart from one call, when t is a direct argument
                if len(uses) == 2 and len(here) == 1 and not any(
                        isinstance(n, SCOPE) for n in ast.walk(s)) and (
                        pure(p.value) or sum(isinstance(n, ast.Call) for n in
                                             ast.walk(s)) <= 1):
                    class R(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return p.value if n.id == t else n
                    s.value = R().visit(s.value)
                    out[-1] = s
                    continue
            out.append(s)
        return out


class SelfAlias(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if not f.args.args or f.args.args[0].arg != "self":
            return f

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self":
                    n.value = nm("this")
                return n
        f.body = [R().visit(s) for s in f.body]
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
            f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.Assign([nm("this", ast.Store())], nm("self")))
        return f


class ViaLocal(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], (ast.Attribute, ast.Subscript)) and not \
                isinstance(s.value, SIMPLE):
            t = self.fresh("val")
            return [ast.Assign([nm(t, ast.Store())], s.value),
                    ast.Assign(s.targets, nm(t))]
        if isinstance(s, ast.Return) and s.value is not None and not \
                isinstance(s.value, SIMPLE):
            t = self.fresh("ret")
            return [ast.Assign([nm(t, ast.Store())], s.value),
                    ast.Return(nm(t))]
        if isinstance(s, ast.If) and not isinstance(s.test, SIMPLE):
            pass
        return s


class TestLocal(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, SIMPLE):
            t = self.fresh("cond")
            e, s.test = s.test, nm(t)
            return [ast.Assign([nm(t, ast.Store())], e), s]
        return s


class Impl(ast.NodeTransformer):
    """public methods become thin wrappers around a private implementation"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and \
                    not f.name.startswith("_") and f.args.args and not any(
                    isinstance(n, ast.Name) and n.id == "super" or
                    isinstance(n, ast.Attribute) and n.attr.startswith("__")
                    and not n.attr.endswith("__") for n in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = "_do_" + f.name
                a = f.args
                call = ast.Call(
                    ast.Attribute(nm("self"), g.name, ast.Load()),
                    [nm(x.arg) for x in a.args[1:]] + (
                        [ast.Starred(nm(a.vararg.arg))] if a.vararg else []),
                    [ast.keyword(x.arg, nm(x.arg)) for x in a.kwonlyargs] +
                    ([ast.keyword(None, nm(a.kwarg.arg))] if a.kwarg else []))
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and \
                    isinstance(f.body[0].value, ast.Constant) else []
                f.body = doc + [ast.Return(call)]
                g.args.defaults = []
                g.args.kw_defaults = [None] * len(a.kwonlyargs)
                new += [f, g]
            else:
                new.append(f)
        c.body = new
        return c


class SplitAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            v = s.test.values
            rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            return ast.If(v[0], [ast.If(rest, s.body, [])], [])
        return s


class Fstr(ast.NodeTransformer):
    """'a {0} b'.format(x) -> 'a %s b' % (x,) ; '%s' % -> format untouched"""

    def visit_Call(self, c):
        self.generic_visit(c)
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(
                f.value, ast.Constant) and not c.keywords and isinstance(
                f.value.value, str):
            import string
            vals, auto = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(
                    f.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is None:
                    continue
                if spec or conv:
                    return c
                if fld == "":
                    fld, auto = str(auto), auto + 1
                if not fld.isdigit() or int(fld) >= len(c.args):
                    return c
                vals.append(ast.FormattedValue(c.args[int(fld)], -1, None))
            return ast.JoinedStr(vals)
        return c


class DictLit(ast.NodeTransformer):
    def visit_Dict(self, d):
        self.generic_visit(d)
        if d.keys and all(isinstance(k, ast.Constant) and isinstance(
                k.value, str) and k.value.isidentifier() for k in d.keys):
            return ast.Call(nm("dict"), [], [ast.keyword(k.value, v) for k, v
                                             in zip(d.keys, d.values)])
        return d


class Noop(Blocks):
    """a statement that does nothing at the top and bottom of functions"""

    def block(self, b):
        if b is self.fn.body:
            i = 1 if isinstance(b[0], ast.Expr) and isinstance(
                b[0].value, ast.Constant) else 0
            return b[:i] + [ast.Assign([nm("_unused", ast.Store())],
                                       ast.Constant(0))] + b[i:]
        return b


class MemberTuple(ast.NodeTransformer):
    """x == 'a' -> x in ('a',) ; 'a' or 'b' chains merged are left"""

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], ast.Eq) and isinstance(
                c.comparators[0], ast.Constant) and isinstance(
                c.comparators[0].value, str):
            return ast.Compare(c.left, [ast.In()], [ast.Tuple(
                [c.comparators[0]], ast.Load())])
        return c


TR = {k.lower(): v for k, v in list(globals().items())
      if isinstance(v, type) and issubclass(v, ast.NodeTransformer)
      and v is not Blocks}


def make(name, d):
    shutil.copytree("/repo/turbustat", d + "/turbustat",
                    ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    for r, _, fs in os.walk(d + "/turbustat"):
        for f in fs:
            if f.endswith(".py") and "tests" not in r.split(os.sep):
                p = os.path.join(r, f)
                src = open(p).read()
                t = ast.parse(src)
                for one in name.split('+'):
                    t = ast.parse(ast.unparse(ast.fix_missing_locations(
                        TR[one]().visit(t))))
                ast.fix_missing_locations(t)
                out = ast.unparse(t)
                fut = "from __future__"
                compile(out, p, "exec")
                open(p, "w").write(out)


def main():
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    keep = "--keep" in args
    args = [a for a in args if a != "--keep"]
    import json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not checks:
        checks = [c["property"] for c in json.load(open(
            here + "/MANIFEST.json"))["checks"]]
    for name in args or sorted(TR):
        d = "/tmp/refac/" + name
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        make(name, d)

        def one(pid):
            e = dict(os.environ, TSA_REPO=d, TSA_EVIDENCE=d)
            try:
                r = subprocess.run(["timeout", "900", sys.executable,
                                    here + "/check.py", pid],
                                   capture_output=True, text=True, env=e)
            except Exception as ex:
                return pid, -1, str(ex)
            open(d + "/" + pid + ".out", "w").write(r.stdout + r.stderr)
            return pid, r.returncode, r.stdout.count("VIOLATION")
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(one, checks))
        bad = ["%s rc=%s v=%s" % r for r in res if r[1] != 0]
        print(name, "quiet" if not bad else "  ".join(bad), flush=True)


if __name__ == "__main__":
    main()
