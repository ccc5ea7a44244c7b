"""P08: distances are never negative, and zero between equal data sets."""
from fractions import Fraction

from ..canon import Canon, element, plain
from ..core import Finding, fwhere, public_functions
from ..interp import Interp
from ..terms import const, mk, param
from .p07 import cases, distance_classes

RULE = ("sign analysis of every distance term, and vanishing of its canonical "
        "polynomial form after identifying the arguments of the two data sets")
EXPLANATION = (
    "The distances of each *_Distance class are obtained as terms over the "
    "arguments (calls inlined). (a) A sign domain over terms shows them "
    "non-negative: absolute values, norms, roots, even powers, KS statistics "
    "and their sums, products and quotients. (b) With the arguments of data "
    "set 2 replaced by those of data set 1 the term is shown to vanish: "
    "differences of equal canonical forms cancel (rational polynomials over "
    "canonical atoms).")
ASSUMPTIONS = [
    "non-negativity of the Cramer statistic (an energy distance) is a theorem "
    "and not derived from the code",
    "quotients are taken where their denominator is not zero",
]

# element-wise or reducing functions with f(0) = 0
ZERO = {"numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs",
        "numpy.sqrt", "numpy.sum", "numpy.nansum", "numpy.mean",
        "numpy.nanmean", "numpy.median", "numpy.linalg.norm", "numpy.max",
        "numpy.nanmax", "numpy.nanmedian", "numpy.ravel", "numpy.array",
        "numpy.asarray", "builtins.float", "builtins.sum", "numpy.square",
        "numpy.squeeze", "builtins.max", "builtins.min", "numpy.trapz",
        "numpy.nan_to_num", "numpy.amax", "math.sqrt"}
NONNEG = {"numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs",
          "numpy.sqrt", "numpy.linalg.norm", "numpy.square", "numpy.std",
          "numpy.var", "numpy.nanstd", "numpy.nanvar", "builtins.len",
          "numpy.exp", "math.sqrt", "numpy.zeros", "numpy.ones",
          "numpy.empty", "scipy.stats.ks_2samp", "numpy.diff",
          "numpy.hypot", "numpy.ones_like", "numpy.zeros_like"}
KEEP = {"numpy.sum", "numpy.nansum", "numpy.mean", "numpy.nanmean",
        "numpy.median", "numpy.max", "numpy.nanmax", "numpy.min",
        "numpy.ravel", "numpy.array", "numpy.asarray", "builtins.float",
        "builtins.sum", "numpy.squeeze", "numpy.nanmedian", "numpy.nanmin",
        "builtins.max", "builtins.min", "numpy.amax", "numpy.trapz",
        "numpy.nan_to_num"}
NAN = mk("ext", "numpy.nan")


def unifier(case):
    """2 -> 1"""
    sw, both = case.sw, case.both

    def first(t):
        if t.op == "param":
            if t.args[0] == "pre2":
                return param("pre1", t.args[1])
            if t in sw and t.args[0] == "init" and t.args[1] in \
                    case.pi.values():
                return sw[t]
            if t in sw and t.args[0] == "run" and t.args[1] in \
                    case.pd.values():
                return sw[t]
        if t.op == "sub" and t.args[0] in both and t.args[1] is const(1):
            return mk("sub", t.args[0], const(0))
        return None
    return first


class Sem(object):

    def __init__(self, canon):
        self.c = canon
        self.zm, self.nm = {}, {}

    # -- rational polynomials over canonical atoms -----------------------
    def poly(self, t, depth=0):
        """{monomial: coefficient} or None"""
        c = self.c
        t = plain(t)
        if t.op == "ite":
            r = c.truth(t.args[0])
            if r is not None:
                return self.poly(t.args[1 if r else 2], depth)
        if t.op == "const" and isinstance(t.args[0], (int, float)) and \
                not isinstance(t.args[0], bool):
            try:
                f = Fraction(t.args[0])
            except (ValueError, OverflowError):
                return {((c(t), 1),): Fraction(1)}
            return {(): f} if f else {}
        if t.op == "un" and t.args[0] == "-":
            return {k: -v for k, v in self.poly(t.args[1]).items()}
        if t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].args[0] == "builtins.float" and len(t.args[1]) == 1:
            return self.poly(t.args[1][0], depth)
        if t.op == "bin":
            o, x, y = t.args
            if o in ("+", "-"):
                return add(self.poly(x), self.poly(y), 1 if o == "+" else -1)
            if o == "*":
                return mul(self.poly(x), self.poly(y))
            if o == "/":
                d = self.poly(y)
                if len(d) == 1:
                    (k, v), = d.items()
                    return mul(self.poly(x), {
                        tuple(sorted((a, -e) for a, e in k)): 1 / v})
                return mul(self.poly(x), {((c(y), -1),): Fraction(1)})
            if o == "**" and y.op == "const" and isinstance(
                    y.args[0], (int, float)) and y.args[0] == int(
                    y.args[0]) and 0 <= y.args[0] <= 4:
                r = {(): Fraction(1)}
                for _ in range(int(y.args[0])):
                    r = mul(r, self.poly(x))
                return r
        if self.zero(t, depth + 1):
            return {}
        return {((c(t), 1),): Fraction(1)}

    def zero(self, t, depth=0):
        r = self.zm.get(t.id)
        if r is None:
            self.zm[t.id] = False
            r = self.zm[t.id] = self._zero(t, depth)
        return r

    def _zero(self, t, depth):
        if depth > 60:
            return False
        t = plain(t)
        o, a = t.op, t.args
        if o == "const":
            return a[0] == 0 and not isinstance(a[0], bool)
        if t is NAN or o == "undef":
            return True         # no distance there
        if o == "ite":
            r = self.c.truth(a[0])
            if r is not None:
                return self.zero(a[1 if r else 2], depth + 1)
            return self.zero(a[1], depth + 1) and self.zero(a[2], depth + 1)
        if o == "un":
            return self.zero(a[1], depth + 1)
        if o == "bin":
            if a[0] == "*":
                return self.zero(a[1], depth + 1) or \
                    self.zero(a[2], depth + 1) or not self.poly(t, depth)
            if a[0] == "/":
                return self.zero(a[1], depth + 1)
            if a[0] == "**":
                return self.zero(a[1], depth + 1)
            if a[0] in ("+", "-"):
                return not self.poly(t, depth)
            return False
        if o == "sub":
            b = a[0]
            if b.op == "call" and b.args[0].op == "ext" and \
                    b.args[0].args[0] == "scipy.stats.ks_2samp":
                return a[1] is const(0) and \
                    self.c(b.args[1][0]) == self.c(b.args[1][1])
            if a[1].op == "const" and isinstance(a[1].args[0], int):
                e = element(b, a[1].args[0])
                if e is not None and e is not t:
                    return self.zero(e, depth + 1)
            return self.zero(b, depth + 1)
        if o == "attr":
            if a[1] == "statistic" and a[0].op == "call" and \
                    a[0].args[0].op == "ext" and \
                    a[0].args[0].args[0] == "scipy.stats.ks_2samp":
                return self.c(a[0].args[1][0]) == self.c(a[0].args[1][1])
            return a[1] in ("value", "T") and self.zero(a[0], depth + 1)
        if o in ("list", "tuple"):
            return bool(a) and all(self.zero(x, depth + 1) for x in a)
        if o == "loop" and len(a) >= 3:
            return self.zero_loop(t, depth)
        if o == "comp":
            return all(self.zero(x, depth + 1) for x in a[0])
        if o == "upd":
            return fresh(a[0]) and self.zero(a[2], depth + 1)
        if o == "append":
            return all(self.zero(x, depth + 1) for x in a[1:]) and (
                self.zero(a[0], depth + 1) or a[0] is mk("list"))
        if o == "call" and a[0].op == "ext" and a[0].args[0] in ZERO and \
                a[1]:
            if a[0].args[0] in ("builtins.max", "builtins.min"):
                return all(self.zero(x, depth + 1) for x in a[1])
            return self.zero(a[1][0], depth + 1)
        return False

    def zero_loop(self, t, depth):
        """an array all of whose elements the loop sets to zero"""
        init, body = t.args[1], t.args[2]
        if not (fresh(init) or self.zero(init, depth + 1)):
            return False

        def ok(b):
            if b.op == "mu":
                return True
            if b.op == "upd":
                return ok(b.args[0]) and self.zero(b.args[2], depth + 1)
            if b.op == "ite":
                return ok(b.args[1]) and ok(b.args[2])
            if b.op == "bin" and b.args[0] == "+":
                return any(ok(x) and self.zero(y, depth + 1) for x, y in (
                    b.args[1:], b.args[:0:-1]))
            if b.op == "append":
                return ok(b.args[0]) and all(self.zero(x, depth + 1)
                                             for x in b.args[1:])
            return False
        return ok(body)

    # -- signs -----------------------------------------------------------
    def nonneg(self, t, depth=0):
        r = self.nm.get(t.id)
        if r is None:
            self.nm[t.id] = False
            r = self.nm[t.id] = self._nonneg(t, depth)
        return r

    def _nonneg(self, t, depth):
        if depth > 60:
            return False
        n = self.nonneg
        t = plain(t)
        o, a = t.op, t.args
        if o == "const":
            return isinstance(a[0], (int, float)) and a[0] >= 0
        if t is NAN or o in ("undef",):
            return True
        if o == "ext":
            return a[0] in ("numpy.inf", "numpy.pi")
        if o == "ite":
            return n(a[1], depth + 1) and n(a[2], depth + 1)
        if o == "bin":
            if a[0] in ("+", "*", "/", "//"):
                if a[0] == "*" and a[1] is a[2]:
                    return True
                return n(a[1], depth + 1) and n(a[2], depth + 1)
            if a[0] == "**":
                e = a[2]
                if e.op == "const" and isinstance(e.args[0], (int, float)) \
                        and e.args[0] % 2 == 0:
                    return True
                return n(a[1], depth + 1)
            return False
        if o == "sub":
            if a[1].op == "const" and isinstance(a[1].args[0], int):
                e = element(a[0], a[1].args[0])
                if e is not None and e is not t:
                    return n(e, depth + 1)
            return n(a[0], depth + 1)
        if o == "attr":
            if a[1] in ("size", "ndim", "shape", "nobs"):
                return True
            return a[1] in ("value", "T", "statistic") and \
                n(a[0], depth + 1)
        if o in ("list", "tuple"):
            return all(n(x, depth + 1) for x in a)
        if o == "comp":
            return all(n(x, depth + 1) for x in a[0])
        if o == "upd":
            return n(a[0], depth + 1) and n(a[2], depth + 1)
        if o == "append":
            return all(n(x, depth + 1) for x in a)
        if o == "mu":
            return True         # shown for the whole loop by its body
        if o == "loop" and len(a) >= 3:
            return n(a[1], depth + 1) and n(a[2], depth + 1)
        if o == "call" and a[0].op == "ext":
            f = a[0].args[0]
            if f in NONNEG:
                return True
            if f == "builtins.max" and len(a[1]) > 1:
                return any(n(x, depth + 1) for x in a[1])
            if f in KEEP and a[1]:
                return all(n(x, depth + 1) for x in a[1]) if f in (
                    "builtins.min",) else n(a[1][0], depth + 1)
        return False


def fresh(t):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
        "numpy.empty", "numpy.zeros", "numpy.empty_like", "numpy.zeros_like")


def add(p, q, s):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def mul(p, q):
    r = {}
    for k, v in p.items():
        for l, w in q.items():
            d = {}
            for a, e in k + l:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted((a, e) for a, e in d.items() if e))
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def check(p, rep, tier):
    n = 0
    for c in distance_classes(p):
        reported = set()
        where = "%s:%s" % (c.module.rel, c.name)
        # (raw against precomputed: their settings need not agree)
        for case in cases(p, c, rep, ("same grid",), ("rr", "pp")):
            sem = Sem(Canon(unifier(case), case.eqs))
            for k, t in sorted(case.obs.items()):
                if "distance" not in k:
                    continue
                n += 1
                for what, ok, text in (
                        ("zero", lambda: sem.zero(t),
                         "is not shown to vanish for equal data sets"),
                        ("sign", lambda: sem.nonneg(t),
                         "is not shown to be non-negative")):
                    if what == "sign" and c.name == "Cramer_Distance":
                        continue
                    ok = ok()
                    if not ok and (k, what) in reported:
                        continue
                    if not ok:
                        reported.add((k, what))
                    rep.ob(ok, Finding(
                        "P08." + what, where, k, "%s.%s %s (%s)" % (
                            c.name, k, text, case.label), c.node.lineno),
                        "%s.%s: %s (%s)" % (c.name, k, what, case.label))
    scale(p, rep)
    rep.at_least("distances", n, 40)


def scale(p, rep):
    """equal grids have the common scale 1"""
    for f in public_functions(p):
        if f.name != "common_scale":
            continue
        ip = Interp(p)
        v = ip.enter(f, "arg")
        rep.saw(ip)
        a, b = f.params[:2]

        def first(t):
            return param("arg", a) if t is param("arg", b) else None
        sem = Sem(Canon(first))
        ok = v is not None and not sem.poly(
            mk("bin", "-", ip.snap(v), const(1)))
        rep.ob(ok, Finding(
            "P08.scale", fwhere(f), f.name,
            "the common scale of two equal grids is not shown to be 1",
            f.node.lineno), "common_scale(w, w) = 1")
