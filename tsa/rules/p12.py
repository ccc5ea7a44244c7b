"""P12: unusable option values are refused."""
import ast
import json
import multiprocessing
import os
import re
import sys
import threading

from ..core import (Finding, fwhere, stat_classes, public_methods,
                    main_methods, public_functions, param_doc)
from ..interp import Interp, qty, inst, INF
from ..project import AnalysisError
from ..terms import const, FALSE, NONE

RULE = ("each unusable value listed for an option (unknown or misspelt "
        "choice, number or text where a quantity or a data set is needed, "
        "quantity of a wrong kind, scale below one pixel or above the image) "
        "makes the entry raise on every path, each documented choice leaves a "
        "path that does not raise, and no value is compared with a literal "
        "by identity")
EXPLANATION = (
    "The entry is abstractly interpreted with the option fixed to a constant "
    "(or a quantity of known kind and size) and everything else symbolic; "
    "the value is refused when no path of the entry returns.  The options and "
    "values are in tsa/data/refusals.json, derived from the documentation "
    "and reviewed.")
ASSUMPTIONS = ["loops over data run at least once",
               "a string or a float has no unit; converting a quantity "
               "to a unit of another kind raises (astropy)"]
TABLE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "data", "refusals.json")

# data given to the analyses: 64 x 80 pixel images, cubes of 32 channels
IMAGE, CUBE = (64, 80), (32, 64, 80)
DATA2 = {"img", "img1", "img2", "image1", "image2", "data", "data1", "data2",
         "dataset1", "dataset2", "centroid", "moment0", "linewidth"}
DATA3 = {"cube", "cube1", "cube2"}
QTY = {
    "tiny": qty(0.9, "pix"), "onetiny": qty([4, 0.9, 8], "pix"),
    "huge": qty(INF, "pix"), "overhalf": qty(34, "pix"),
    "oneoverhalf": qty([4, 34, 8], "pix"), "negpix": qty(-1, "pix"),
    "temp": qty(5, "temp"), "len": qty(3, "len"), "onetemp": qty([5, 6],
                                                                 "temp"),
    "fine": qty(6, "pix"), "allfine": qty([4, 6, 8], "pix"),
    "finefreq": qty(0.1, "1/pix"), "fineang": qty(3, "ang"),
}


def context(f, but=()):
    out = {}
    for n in opts(f):
        if n in but:
            continue
        if n in DATA2:
            out[n] = inst("HDU", IMAGE)
        elif n in DATA3:
            out[n] = inst("HDU", CUBE)
        elif n in ("distance", "header"):
            out[n] = NONE
    return out
# option values that make a conditional use of an option apply
CONTEXT = {
    ("PCA.run", "spatial_method"): {"decomp_only": FALSE},
    ("PCA.run", "spectral_method"): {"decomp_only": FALSE},
    ("PCA.run", "fit_method"): {"decomp_only": FALSE},
    ("PCA.run", "xlow"): {"decomp_only": FALSE},
    ("PCA.run", "xhigh"): {"decomp_only": FALSE},
    ("PCA.run", "beam_fwhm"): {"decomp_only": FALSE},
    ("PCA.run", "eigen_cut_method"): {"n_eigs": const("auto")},
    ("PCA.compute_pca", "eigen_cut_method"): {"n_eigs": const("auto")},
    ("PDF.run", "fit_type"): {"do_fit": const(True)},
}


def value(name):
    """The term of a probe as written in the table."""
    if isinstance(name, str) and name.startswith("q:"):
        return QTY[name[2:]]
    if isinstance(name, str) and name.startswith("t:"):
        return inst(name[2:])
    return const(name)


def concrete(p):
    return [c for c in stat_classes(p)
            if not (c.name.startswith("StatisticBase") or
                    c.name.endswith("MixIn"))]


class Prober(object):
    """Enter one class's or function's entry points with fixed values."""

    def __init__(self, p, rep=None):
        self.p = p
        self.rep = rep

    def entries(self, c):
        """(name, func, enter) of a class: enter(fixed) is None if every
        path raises."""
        p = self.p
        hit = p.find(c, "__init__")
        init = hit[1] if hit and hit[0] == "methods" else None
        if init is not None:
            def make(fixed):
                ip = Interp(p)
                ip.loops_run = ip.strict = True
                try:
                    return ip.new_object(c, fixed=dict(
                        context(init, fixed), **fixed))
                except AnalysisError:
                    return None
            yield c.name, init, make
        ip = Interp(p)
        ip.loops_run = ip.strict = True
        try:
            obj = ip.new_object(c, fixed=context(init) if init else None)
        except AnalysisError:
            return
        mm = main_methods(p, c)
        base0 = ip.st.copy()

        def on(f, base, ref):
            def go(fixed):
                ip.st = base.copy()
                return ip.enter(f, "m", ref, fixed)
            return go
        from ..terms import mk
        for f in mm:
            yield c.name + "." + f.name, f, on(f, base0, obj)
            ip.st = base0.copy()
            ip.enter(f, "run", obj)
        base = ip.st.copy() if mm else base0
        for n, (k, f) in sorted(public_methods(p, c).items()):
            if k != "methods" or f in mm:
                continue
            ref = mk("class", c.qual) if f.kind == "classmethod" else obj
            yield c.name + "." + n, f, on(f, base, ref)
        seen = set()
        for k in p.mro(c):
            for n, f in sorted(k.setters.items()):
                if n not in seen:
                    seen.add(n)
                    yield c.name + "." + n + "=", f, on(f, base0, obj)
        if self.rep is not None:
            self.rep.saw(ip)

    def func(self, f):
        def go(fixed):
            ip = Interp(self.p)
            ip.loops_run = ip.strict = True
            r = ip.enter(f, "arg", None, fixed)
            if self.rep is not None:
                self.rep.saw(ip)
            return r
        return f.name, f, go

    def run(self, c, each):
        """``each(name, func, enter)`` for the entries of class or function
        ``c``."""
        if hasattr(c, "methods"):
            for x in self.entries(c):
                each(*x)
        else:
            each(*self.func(c))


def opts(f):
    ps = list(f.params)
    if f.cls is not None and f.kind != "staticmethod":
        ps = ps[1:]
    return ps


_W = {}


def _work(i):
    res = []
    err = []

    def go():
        try:
            p, todo, table = _W["p"], _W["todo"], _W["table"]

            def each(name, f, enter):
                for o, rows in sorted(table.get(name, {}).items()):
                    if o not in opts(f):
                        res.append((name, fwhere(f), o, None, None,
                                    f.node.lineno))
                        continue
                    for kind in ("refuse", "accept"):
                        for v in rows.get(kind, ()):
                            fixed = dict(CONTEXT.get((name, o), {}))
                            fixed[o] = value(v)
                            ok = enter(fixed) is not None
                            res.append((name, fwhere(f), o, (kind, v), ok,
                                        f.node.lineno))
            pr = Prober(p)
            pr.run(todo[i], each)
        except AnalysisError as e:
            err.append(str(e))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res, err


def identity(p, rep):
    """A choice compared by identity with a literal is accepted or refused by
    accident of string interning."""
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Compare):
                continue
            xs = [n.left] + n.comparators
            for o, a, b in zip(n.ops, xs, xs[1:]):
                if not isinstance(o, (ast.Is, ast.IsNot)):
                    continue
                lit = any(isinstance(x, ast.Constant) and isinstance(
                    x.value, (str, bytes, int, float)) and not isinstance(
                        x.value, bool) for x in (a, b))
                rep.count("identity comparisons")
                rep.ob(not lit, Finding(
                    "P12.identity", m.rel, ast.unparse(n),
                    "a value is compared with a literal by identity",
                    n.lineno))


def check(p, rep, tier):
    table = json.load(open(TABLE))
    todo = [c for c in concrete(p)
            if any(k == c.name or k.startswith(c.name + ".") for k in table)]
    todo += [f for f in public_functions(p) if f.name in table]
    _W.update(p=p, todo=todo, table=table)
    threading.stack_size(1 << 28)
    with multiprocessing.get_context("fork").Pool(
            min(8, os.cpu_count() or 1)) as pool:
        out = pool.map(_work, range(len(todo)), 1)
    seen = set()
    for i, (res, err) in enumerate(out):
        for e in err:
            raise AnalysisError(e)
        for name, where, o, row, ok, line in res:
            if row is None:
                rep.ob(False, Finding(
                    "P12.option", where, name + "(" + o + ")",
                    "%s no longer takes the option %r" % (name, o), line))
                continue
            kind, v = row
            seen.add((name, o, kind, str(v)))
            rep.functions.add(where)
            rep.count("%s values tried" % kind)
            good = ok if kind == "accept" else not ok
            rep.ob(good, Finding(
                "P12." + kind, where, "%s(%s=%r)" % (name, o, v),
                ("the unusable value %r of %s is not refused: a path of %s "
                 "returns" % (v, o, name)) if kind == "refuse" else
                ("the documented value %r of %s is refused on every path of "
                 "%s" % (v, o, name)), line),
                sample="%s(%s=%r): %s" % (name, o, v, kind + "d"))
    identity(p, rep)
    rep.at_least("entries with checked options", len(
        set(x[0] for x in seen)), int(0.9 * len(table)))
