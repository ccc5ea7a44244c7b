"""P17: analyses made before give the distance that their data give."""
import ast
import multiprocessing
import os
import threading
import traceback

from ..core import Finding, has_method, param_doc
from ..interp import Interp, inst, qty
from ..observe import observables
from ..project import AnalysisError
from ..results import reach
from ..terms import (FALSE, NONE, TRUE, T, and_, cmp_, const, decided, ite, mk,
                     not_, or_, param, show, subst)
from .p07 import distance_classes, is_data, pairs, pre_class
from .p10 import Agree
from .p13 import header

EXPLANATION = (
    "Each distance class is abstractly interpreted with its data as (array, "
    "header) tuples on a common grid and every other option symbolic; the "
    "two analyses it keeps are then given to the same class, with the same "
    "options, instead of the first, the second or both data sets. Every "
    "distance must, wherever the data give one, be the same term.")
ASSUMPTIONS = ["the data sets are on a common grid and have no degenerate "
               "axes", "an array equals itself (no NaN lags)"]


def contents(ip, st):
    """Objects made along the way are what they hold, wherever they were
    made."""
    memo = {}

    def names(cls, node, done):
        """Attributes that a function may read, with those of methods and
        properties it uses."""
        new = {n.attr for n in ast.walk(node)
               if isinstance(n, ast.Attribute)} - done
        done |= new
        for n in new:
            hit = ip.p.find(cls, n)
            for f in hit[1:] if hit else ():
                if hasattr(f, "node"):
                    names(cls, f.node, done)
        return done

    def held(f, y):
        if y.op != "ref" or y not in ip.objclass:
            return subst(ip.snap(y), obj, memo)
        cls = ip.cls_of(y)
        use = names(cls, f.node, set())
        return mk("objval", cls.name, *[
            z for k, v in sorted(ip.st.heap.get(y.args[0], {}).items())
            if isinstance(v, T) and k in use
            for z in (const(k), subst(ip.snap(v), obj, memo))])

    def obj(x):
        if x.op == "exc":
            return mk("exc", str(x.args[0]).split("#")[0])
        if x.op == "closure" and x in ip.closures:
            f = ip.closures[x][0]
            return mk("closure", x.args[0], tuple(
                (n, held(f, y)) for n, y in x.args[1]))
        if x.op != "ref" or x not in ip.objclass:
            return None
        # an object that holds itself
        memo[x.id] = mk("objself", ip.cls_of(x).name)
        h = sorted(ip.st.heap.get(x.args[0], {}).items())
        return mk("objval", ip.cls_of(x).name, *[
            y for k, v in h if isinstance(v, T)
            for y in (const(k), subst(ip.snap(v), obj, memo))])
    return {k: subst(v, obj, memo) for k, v in st.items()
            if not (v.op == "ref" and v in ip.objclass)}


class Alike(Agree):
    """Operands of a commutative operation in either order."""

    def __call__(self, a, b):
        if a.op == b.op == "bin" and a.args[0] == b.args[0] and \
                a.args[0] in "+*" and a is not b:
            why = self.why
            if all(self(*xy) for xy in zip(a.args[1:], b.args[1:])) or \
                    all(self(*xy) for xy in zip(a.args[1:], b.args[:0:-1])):
                self.why = why
                return True
            return False
        if a.op == b.op and a.op in ("bool&", "bool|", "and", "or") and \
                len(a.args) == len(b.args) and a is not b:
            why, left = self.why, list(b.args)
            for x in a.args:
                y = next((y for y in left if y is x), None) or \
                    next((y for y in left if self(x, y)), None)
                if y is None:
                    return False
                left.remove(y)
            self.why = why
            return True
        return Agree.__call__(self, a, b)


def simplify(t, memo):
    """Rebuild with: squeezed images are images, x == x, pixels in pixels."""
    def any_(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(any_(b) for b in a)
        return a

    def rec(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        args = tuple(any_(a) for a in x.args)
        r = {"ite": ite, "not": not_, "and": and_, "or": or_,
             "cmp": cmp_}.get(x.op, lambda *a: mk(x.op, *a))(*args)
        r = rule(r)
        memo[x.id] = r
        return r

    def rule(x):
        if x.op == "attr" and x.args[1] == "size" and \
                length(x.args[0]) is not None:
            return const(length(x.args[0]))
        if x.op == "bin" and x.args[0] == "%" and \
                x.args[1].op == x.args[2].op == "const":
            return const(x.args[1].args[0] % x.args[2].args[0])
        if x.op in ("bool|", "bool&"):
            return mk(x.op, *sorted(x.args, key=lambda y: y.id))
        if x.op == "bin" and x.args[0] in ("+", "*") and \
                x.args[1].id > x.args[2].id:
            return mk("bin", x.args[0], x.args[2], x.args[1])
        if x.op == "ite" and x.args[0].op in ("ite", "and", "or"):
            v = decided(x.args[0])
            if v is not None:
                return x.args[1] if v else x.args[2]
        if x.op == "cmp" and x.args[0] == "==" and x.args[1] is x.args[2]:
            return TRUE
        if x.op == "cmp" and x.args[0] == "==" and x.args[1] in OTHER and \
                x.args[2] in OTHER:
            return FALSE
        if x.op == "bin" and x.args[0] == "-" and all(
                y.op == "const" and isinstance(y.args[0], (int, float))
                for y in x.args[1:]):
            return const(x.args[1].args[0] - x.args[2].args[0])
        if x.op == "bin" and x.args[0] == "-" and x.args[1] is x.args[2]:
            return const(0.0)
        if x.op == "call":
            f, a = x.args[0], x.args[1]
            if f.op == "ext" and f.args[0] in (
                    "numpy.all", "numpy.any", "builtins.all", "builtins.any",
                    "numpy.allclose") and a and a[0] in (TRUE, FALSE):
                return a[0]
            if f.op == "ext" and f.args[0] in (
                    "numpy.abs", "numpy.fabs", "builtins.abs") and \
                    a[0].op == "const" and isinstance(
                        a[0].args[0], (int, float)):
                return const(abs(a[0].args[0]))
            if f.op == "ext" and f.args[0] in (
                    "builtins.min", "builtins.max", "numpy.minimum",
                    "numpy.maximum") and len(a) > 1:
                return mk("call", f, tuple(sorted(a, key=lambda y: y.id)),
                          x.args[2])
            if f.op == "ext" and f.args[0] == "numpy.array_equal" and \
                    len(a) == 2:
                if a[0] is a[1]:
                    return TRUE
                if a[0] in OTHER and a[1] in OTHER:
                    return FALSE
                v = [known(y) for y in a]
                if None not in v:
                    return TRUE if v[0] == v[1] else FALSE
            if f.op == "ext" and f.args[0] == "numpy.squeeze" and \
                    a[0].op == "inst":
                return a[0]
            if f.op == "attr" and f.args[0] in (TRUE, FALSE) and \
                    f.args[1] in ("all", "any"):
                return f.args[0]
            if f.op == "attr" and f.args[1] == "to" and a and \
                    pixels(f.args[0]) and a[0] is PIX:
                return f.args[0]
        return x
    return rec(t)


def known(t):
    """What identifies an array of constants (pixel units aside)."""
    if t.op == "vec" and all(x.op == "const" for x in t.args):
        return tuple(x.args[0] for x in t.args)
    if t.op == "const":
        return t.args[0]
    if t.op == "attr" and t.args[1] == "value":
        return known(t.args[0])
    if t.op == "bin" and t.args[0] == "*" and PIX in t.args[1:]:
        return known(t.args[1 if t.args[2] is PIX else 2])
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
            "numpy.logspace", "numpy.log10") and not t.args[2]:
        v = [known(x) for x in t.args[1]]
        return None if None in v else (t.args[0].args[0],) + tuple(v)
    return None


def length(t):
    """The number of elements of a one-dimensional array, if it shows."""
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == \
            "numpy.arange" and len(t.args[1]) == 1 and \
            t.args[1][0].op == "const":
        return t.args[1][0].args[0]
    if t.op == "bin":
        n = [length(a) for a in t.args[1:] if a.op not in ("const", "ext")]
        return n[0] if len(n) == 1 else None
    return None


PIX = mk("ext", "astropy.units.pix")


def pixels(t):
    if t is PIX:
        return True
    if t.op == "bin" and t.args[0] == "*":
        return pixels(t.args[1]) or pixels(t.args[2])
    if t.op == "bin" and t.args[0] == "/" or t.op == "sub":
        return pixels(t.args[1 if t.op == "bin" else 0])
    if t.op == "ite":
        return pixels(t.args[1]) and pixels(t.args[2])
    return False

RULE = ("self-composition of each distance class: its distances, computed "
        "again with the analyses it made passed in place of one or both data "
        "sets, equal the distances from the data as terms over the arguments")


def variants(init):
    vs = [("", {})]
    for n in init.params:
        if n.startswith("use_"):
            vs = [(l + ", %s=%s" % (n, b.args[0]), dict(d, **{n: b}))
                  for l, d in vs for b in (TRUE, FALSE)]
        elif n == "lags":
            vs = [(l + ", lags=" + m, dict(d, lags=v)) for l, d in vs
                  for m, v in (("None", NONE),
                               ("4, 6, 8 pixels", qty([4, 6, 8], "pix")))]
        elif n == "min_deltas":
            vs = [(l + ", min_deltas " + m, dict(d, min_deltas=v))
                  for l, d in vs for m, v in (
                      ("None", NONE), ("given", STALE[n][0]))]
        elif n == "size":
            vs = [(l, dict(d, size=const(11))) for l, d in vs]
        elif n in ("lags2", "dendro_params"):
            vs = [(l, dict(d, **{n: NONE})) for l, d in vs]
    return vs


def uses(p, f, name):
    return any(isinstance(x, ast.Name) and x.id == name
               for x in ast.walk(f.module.tree))


def collect(ip, roots):
    """Forget the objects that nothing given to the second distance holds:
    the same code will make its own."""
    seen, todo, keys = set(), list(roots), set(ip.default_refs)
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        todo += x.kids()
        if x.op == "ref":
            keys.add(x.args[0])
            todo += [v for v in ip.st.heap.get(x.args[0], {}).values()
                     if isinstance(v, T)]
    for k in list(ip.st.heap):
        if k not in keys and ("obj:" + k).count("obj:") > 1:
            del ip.st.heap[k]


def scaled(ip):
    """What the grids are compared by."""
    return {"grids the distance compares (%d)" % i: mk("tuple", *args)
            for i, (name, args) in enumerate(ip.stubbed)
            if name == "common_scale"}


def new(p, ip, pre, dinit, fx, n):
    """An analysis of data set `n` that has not been run."""
    f = has_method(p, pre, "__init__")
    a = f.node.args
    names = [x.arg for x in a.args]
    dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    names.remove("self")
    fixed = {names[0]: fx[n]}
    for q in names[1:]:
        own = q if q in dinit.params else q + n[-1]
        if own in fx:
            fixed[q] = fx[own]
        elif own in dinit.params:
            fixed[q] = param("init", own)
        else:
            fixed[q] = ip.default(f, q, dflt)
    return ip.new_object(pre, "init", fixed, tag=":" + n)


def cases(p, c, rep=None):
    pre = pre_class(p, c)
    if pre is None:
        return
    init = has_method(p, c, "__init__")
    dm = has_method(p, c, "distance_metric")
    data = [ab for ab in pairs(init.params).items() if is_data(ab[0])][0]
    flat = "dict" not in (param_doc(init, data[0]) or "")
    vs = [(scale, label, fixed, {}) for scale in SCALES
          for label, fixed in variants(init)]
    for n, (v, o) in sorted(STALE.items()):
        if n in init.params:
            vs += [(1.0, label + ", %s changed" % n, dict(fixed, **{n: v}),
                    {n: o}) for label, fixed in variants(init)
                   if fixed.get(n) is not NONE]
    if not uses(p, init, "common_scale"):      # keeps the changed settings
        vs = [x for x in vs if x[0] == 1.0]
    for scale, label, fixed, other in vs:
        if scale != 1.0:
            label += ", grid scale %s" % scale
        kk = ["pp", "pr", "rp"]
        if flat and scale == 1.0 and not other:
            kk += ["nr", "rn"]
        for kinds in kk:
            isin = mk("ext", "builtins.isinstance")
            ip = Interp(p, assume=[(mk("call", isin, (
                param("init", n), mk("class", pre.qual)), ()), False)
                for n in data])
            ip.stubs["common_scale"] = const(scale)
            fx = dict(fixed)
            if flat:
                fx.update({n: mk("tuple", inst("ndarray", SHAPE.get(
                    n), n), header(n)) for n in data})
            o1 = ip.new_object(c, fixed=fx)
            f = {n: FALSE for n in dm.params if n == "verbose"}
            if ip.enter(dm, "run", o1, f) is None:
                raise AnalysisError("%s.distance_metric always raises" %
                                    c.name)
            a = reach(ip, o1)
            a.update(scaled(ip))
            a = a, contents(ip, a)
            if other:
                fx3 = dict(fx)
                fx3.update(other)
                o1 = ip.new_object(c, fixed=fx3)
                ip.enter(dm, "run", o1, f)
            made = [v for k, v in sorted(ip.st.heap[o1.args[0]].items())
                    if v.op == "ref" and ip.cls_of(v) is pre]
            if len(made) != 2:
                raise AnalysisError("%s keeps %d analyses" % (
                    c.name, len(made)))
            fx2 = dict(fx)
            for k, n, v in zip(kinds, data, made):
                if k == "p":
                    fx2[n] = v
                if k == "n":
                    fx2[n] = new(p, ip, pre, init, fx, n)
            del ip.stubbed[:]
            collect(ip, [v for v in fx2.values() if isinstance(v, T)])
            try:
                o2 = ip.new_object(c, fixed=fx2)
                b = None
                if ip.enter(dm, "run", o2, f) is not None:
                    b = reach(ip, o2)
                    b.update(scaled(ip))
                    b = b, contents(ip, b)
            except AnalysisError:
                b = None
            if rep is not None:
                rep.saw(ip)
            yield label, kinds, a, b


# settings that a distance class makes the analyses it is given agree with
STALE = {"n_eigs": (const(10), const(20)),
         "lags": (qty([4, 6, 8], "pix"), qty([5, 7, 9], "pix")),
         "radius": (qty(6, "pix"), qty(12, "pix")),
         "min_deltas": (inst("ndarray", None, "min_deltas"),
                        inst("ndarray", None, "other min_deltas"))}
OTHER = {x for v in STALE.values() for x in v}
SCALES = (1.0, 2.0, 0.5)
SHAPE = {"data1": (72, 64), "data2": (80, 60), "dataset1": (72, 64),
         "dataset2": (80, 60), "image1": (72, 64), "image2": (80, 60)}


_W = {}


def rows(c):
    out, seen, br = [], set(), 0

    class Rep(object):
        def saw(self, ip):
            seen.update(ip.functions_seen)
    for label, kinds, a, b in cases(_W["p"], c, Rep()):
        how = {"pp": "both data sets", "pr": "the first data set",
               "rp": "the second data set",
               "nr": "the first data set (not yet run)",
               "rn": "the second data set (not yet run)"}[kinds] + label
        memo = {}
        for k in sorted(a[0]):
            if "distance" not in k or "." in k:
                continue
            ag = Agree()
            ok = b is not None and k in b[0] and (ag(
                simplify(a[0][k], memo), simplify(b[0][k], memo)) or
                Alike()(simplify(a[1][k], memo), simplify(b[1][k], memo)))
            why = " (refused)" if b is None else ""
            if not ok and ag.why and not why:
                why = " (%s instead of %s)" % (show(ag.why[1], 3)[:120],
                                               show(ag.why[0], 3)[:120])
            out.append((ok, k, kinds, how, why))
    return out, seen


def _work(i):
    res, err = [], []

    def go():
        try:
            res.append(rows(_W["todo"][i]))
        except Exception:
            err.append(traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res, err


def check(p, rep, tier):
    todo = list(distance_classes(p))
    _W.update(p=p, todo=todo)
    threading.stack_size(1 << 28)
    with multiprocessing.get_context("fork").Pool(
            min(8, os.cpu_count() or 1)) as pool:
        outs = pool.map(_work, range(len(todo)), 1)
    n = 0
    for c, (res, err) in zip(todo, outs):
        if err:
            raise AnalysisError(err[0])
        rep.functions |= res[0][1]
        for ok, k, kinds, how, why in res[0][0]:
            n += 1
            rep.ob(ok, Finding(
                "P17.precomputed", "%s:%s" % (c.module.rel, c.name),
                "%s %s" % (k, kinds),
                "%s.%s changes when the analysis made before is given for "
                "%s%s" % (c.name, k, how, why), c.node.lineno),
                "%s.%s: %s" % (c.name, k, how))
    rep.at_least("distances compared", n, 100)
