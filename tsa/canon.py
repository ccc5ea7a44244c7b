"""Canonical form of terms modulo the laws of arithmetic used by distances.

Equal canonical forms mean equal values for all inputs (up to floating-point
rounding): sums and products are commutative, ``|x| = |-x|``, even powers and
norms ignore the sign, comparisons can be read from either side.  Names of
program points (allocation and loop sites) are abstracted to the function they
lie in, so that two calls of the same code on corresponding arguments are the
same term.
"""
import hashlib
import re

from .terms import T, const, ite, mk, NONE, show

_NUM = re.compile(r":\d+(:-?\d+)?")
_TAG = re.compile(r"\d+~")
_LOOP = re.compile(r"@(L\d+.*)$")


def place(op, s):
    """What remains of a program point: nothing of the names of functions and
    lines, which refactoring changes; loops keep their nesting depth."""
    if op == "ref":
        return s.split("@")[0]
    m = _LOOP.search(s)
    if m:
        return m.group(1)
    if op in ("mu", "loop", "elem", "index", "choice"):
        return ""
    return _TAG.sub("", _NUM.sub("", s.split("#")[0]))

SYMMETRIC = {"scipy.stats.ks_2samp", "numpy.maximum", "numpy.minimum",
             "numpy.fmax", "numpy.fmin", "numpy.hypot", "builtins.max",
             "builtins.min", "numpy.logical_and", "numpy.logical_or",
             "numpy.intersect1d", "numpy.union1d",
             "scipy.stats.anderson_ksamp", "numpy.array_equal",
             "numpy.allclose"}
EVEN = {"numpy.abs", "builtins.abs", "numpy.linalg.norm", "numpy.fabs",
        "numpy.absolute", "numpy.square"}
ABS = {"numpy.abs", "builtins.abs", "numpy.fabs", "numpy.absolute"}
# functions of one collection whose order does not matter
BAG = {"numpy.max", "numpy.min", "numpy.nanmax", "numpy.nanmin", "numpy.sum",
       "builtins.max", "builtins.min", "builtins.sum", "numpy.mean",
       "numpy.amax", "numpy.amin"}


def element(t, i):
    """``t[i]`` looked up in literal sequences, or None"""
    if t.op == "ite":
        x, y = (element(z, i) for z in t.args[1:])
        return ite(t.args[0], x if x is not None else
                   mk("sub", t.args[1], const(i)),
                   y if y is not None else mk("sub", t.args[2], const(i)))
    if t.op in ("list", "tuple"):
        return t.args[i] if -len(t.args) <= i < len(t.args) and not any(
            x.op == "star" for x in t.args) else None
    if t.op == "bin" and t.args[0] == "*" and t.args[1].op == "list" and \
            t.args[2].op == "const" and isinstance(t.args[2].args[0], int):
        n = len(t.args[1].args)
        if n == 0 or not 0 <= i < n * t.args[2].args[0]:
            return None
        return t.args[1].args[i % n]
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
            "numpy.array", "astropy.units.Quantity", "numpy.asarray",
            "builtins.list", "builtins.tuple") and len(t.args[1]) == 1 and \
            not t.args[2]:
        return element(t.args[1][0], i)
    return None


def positive(t):
    if t.op == "sub":
        return positive(t.args[0])
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0] in ABS


def unratio(x, y):
    """``a / b < 1`` is ``a < b`` for positive b"""
    for a, b, fl in ((x, y, False), (y, x, True)):
        if a.op == "bin" and a.args[0] == "/" and b.op == "const" and \
                b.args[0] == 1 and positive(a.args[2]):
            r = (a.args[1], a.args[2])
            return (r[1], r[0]) if fl else r
    return x, y


def plain(t):
    """``x *= y`` has the value of ``x * y``"""
    if t.op == "augupd":
        return mk("bin", t.args[0].rstrip("="), t.args[1], t.args[2])
    return t


def is_array(t):
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0] in (
            "numpy.linspace", "numpy.logspace", "numpy.arange",
            "numpy.geomspace", "numpy.append", "numpy.concatenate",
            "numpy.histogram_bin_edges")
    if t.op == "bin":
        return is_array(t.args[1]) or is_array(t.args[2])
    if t.op == "ite":
        return is_array(t.args[1]) and is_array(t.args[2])
    return False


def bin_edges(t):
    """the bins given to a histogram come back as its edges"""
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] == "numpy.histogram":
        b = t.args[1][1] if len(t.args[1]) > 1 else dict(
            (k, v) for k, v in t.args[2]).get("bins")
        if b is not None and is_array(b):
            return b
    return None


class Canon(object):
    """Hash-consing of canonical forms; ``swap`` maps leaf terms first."""

    def __init__(self, swap=None, eqs=()):
        self.swap = swap or (lambda t: None)
        self.memo = {}
        self.eqs = {}
        for a, b in eqs:
            self.eqs.setdefault(a, []).append(b)
            self.eqs.setdefault(b, []).append(a)

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.raw(t)
            if t in self.eqs:
                # known to be equal: one representative
                r = min([r] + [self.raw(x) for x in self.eqs[t]])
            self.memo[t.id] = r
        return r

    def raw(self, t):
        x = self.swap(t)
        return self._c(t if x is None else x)

    # canonical forms are nested tuples, interned to short digests
    @staticmethod
    def h(*parts):
        m = hashlib.md5(repr(parts).encode()).hexdigest()[:20]
        return m

    def seq(self, xs):
        return tuple(self.any(x) for x in xs)

    def any(self, a):
        if isinstance(a, T):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self.any(b) for b in a)
        return a

    # -- arithmetic ------------------------------------------------------
    def addends(self, t, sign=1):
        """[(sign, canonical)] of a sum"""
        t = plain(t)
        if self.swap(t) is not None:
            return [(sign, self(t))]
        if t.op == "bin" and t.args[0] in ("+", "-"):
            s2 = sign if t.args[0] == "+" else -sign
            return self.addends(t.args[1], sign) + \
                self.addends(t.args[2], s2)
        if t.op == "un" and t.args[0] == "-":
            return self.addends(t.args[1], -sign)
        if t.op == "const" and isinstance(t.args[0], (int, float)) and \
                not isinstance(t.args[0], bool) and t.args[0] < 0:
            return [(-sign, self(const(-t.args[0])))]
        s, f = self.factors(t)
        if len(f) == 1 and f[0][0] == 1:
            return [(sign * s, f[0][1])]
        return [(sign * s, self.h("prod", tuple(f)))]

    def sum_(self, ad, even=False):
        """canonical of a list of addends"""
        pos = sorted(c for s, c in ad if s > 0)
        neg = sorted(c for s, c in ad if s < 0)
        # cancel
        for c in list(pos):
            if c in neg:
                pos.remove(c)
                neg.remove(c)
        if even and neg > pos:
            pos, neg = neg, pos
        if len(pos) == 1 and not neg:
            return pos[0]
        return self.h("sum", tuple(pos), tuple(neg))

    def factors(self, t, exp=1):
        """(sign, [(exp, canonical)]) of a product"""
        t = plain(t)
        if self.swap(t) is not None:
            return 1, [(exp, self(t))]
        if t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].args[0] == "builtins.float" and \
                len(t.args[1]) == 1:
            return self.factors(t.args[1][0], exp)
        if t.op == "bin" and t.args[0] in ("*", "/"):
            s1, f1 = self.factors(t.args[1], exp)
            s2, f2 = self.factors(t.args[2],
                                  exp if t.args[0] == "*" else -exp)
            f = sorted(x for x in f1 + f2
                       if x[1] not in (self(const(1)), self(const(1.0))))
            return s1 * s2, f or [(1, self(const(1)))]
        if t.op == "un" and t.args[0] == "-":
            s, f = self.factors(t.args[1], exp)
            return -s, f
        if t.op == "bin" and t.args[0] in ("+", "-"):
            return 1, [(exp, self.sum_(self.addends(t)))]
        return 1, [(exp, self(t))]

    def absval(self, t):
        t = plain(t)
        if self.swap(t) is not None:
            return self.h("abs", self(t))
        if t.op == "bin" and t.args[0] in ("+", "-"):
            return self.h("abs", self.sum_(self.addends(t), True))
        if t.op == "un" and t.args[0] == "-":
            return self.absval(t.args[1])
        if t.op == "bin" and t.args[0] in ("*", "/"):
            out = []

            def go(y, e):
                if self.swap(y) is None and y.op == "bin" and y.args[0] in ("*", "/"):
                    go(y.args[1], e)
                    go(y.args[2], e if y.args[0] == "*" else -e)
                else:
                    out.append((e, self.absval(y)))
            go(t, 1)
            return self.h("absprod", tuple(sorted(out)))
        return self.h("abs", self(t))

    # -- the rest --------------------------------------------------------
    def _c(self, t):
        t = plain(t)
        o, a = t.op, t.args
        if o == "bin":
            if a[0] in ("+", "-", "*", "/"):
                if a[0] in ("*", "/"):
                    ad = self.addends(t)
                    if len(ad) == 1 and ad[0][0] == 1:
                        return ad[0][1]
                    return self.sum_(ad)
                return self.sum_(self.addends(t))
            if a[0] == "**" and a[2].op == "const" and isinstance(
                    a[2].args[0], (int, float)) and a[2].args[0] % 2 == 0:
                return self.h("pow", self.absval(a[1]), self(a[2]))
            if a[0] in ("&", "|", "^"):
                return self.h("bin", a[0], tuple(sorted(
                    [self(a[1]), self(a[2])])))
            return self.h("bin", a[0], self(a[1]), self(a[2]))
        if o == "call":
            return self.call(t)
        if o == "cmp":
            return self.h("cmp", self.cmp(t)[0])
        if o in ("and", "or", "set", "bool&", "bool|"):
            return self.h(o, tuple(sorted(self(x) for x in a)))
        if o == "ite":
            return self.ite(t)
        if o == "sub" and a[1].op == "const" and a[1].args[0] == 1:
            b = bin_edges(a[0])
            if b is not None:
                return self(b)
        if o == "sub" and a[1].op == "const" and isinstance(
                a[1].args[0], int):
            r = element(a[0], a[1].args[0])
            if r is not None and r is not t:
                return self(r)
        if o == "ref":
            return self.h("ref", place(o, a[0]))
        if o == "mu" and isinstance(a[1], str):
            return self.h(o, place(o, a[0]), self.seq(a[2:]))
        if o == "dict":
            return self.h(o, tuple(sorted(self.any(x) for x in a)))
        return self.h(o, tuple(
            self(x) if isinstance(x, T) else
            (place(o, x) if isinstance(x, str) else self.any(x))
            for x in a))

    def call(self, t):
        fn, args, kws = t.args
        name = fn.args[0] if fn.op == "ext" else None
        if name in ABS and len(args) == 1 and not kws:
            return self.absval(args[0])
        if name == "builtins.len" and len(args) == 1 and \
                args[0].op == "sub" and args[0].args[1].op == "slice" and \
                args[0].args[1].args[0] is NONE and \
                args[0].args[1].args[2] is NONE:
            # len(x[:k]), k within x
            return self(args[0].args[1].args[1])
        ca = None
        if name == "builtins.zip":
            # used through its projections: the order does not matter
            return self.h("zip", tuple(sorted(self.seq(args))))
        if name in EVEN and args:
            ca = (self.absval(args[0]),) + self.seq(args[1:])
        elif name in SYMMETRIC and len(args) == 2:
            ca = tuple(sorted(self.seq(args)))
        elif name in BAG and args and args[0].op in ("list", "tuple"):
            ca = (self.h("bag", tuple(sorted(self.seq(args[0].args)))),) + \
                self.seq(args[1:])
        else:
            ca = self.seq(args)
        if name == "sklearn.metrics.pairwise.pairwise_distances" and \
                len(ca) == 2 and ca[0] == ca[1]:
            ca = ca[:1]
        kk = tuple(sorted((k, self.any(v)) for k, v in kws))
        return self.h("call", self(fn), ca, kk)

    def cmp(self, t):
        """(canonical pair, mirrored?) of a comparison; < and <= are taken
        together: they differ only where both sides are equal."""
        op, x, y = t.args
        if op in ("==", "<", "<="):
            x, y = unratio(x, y)
        cx, cy = self(x), self(y)
        if op in ("==", "is"):
            return (op, tuple(sorted([cx, cy]))), False
        if op in ("<", "<="):
            if cx > cy:
                return ("<", (cy, cx)), True
            return ("<", (cx, cy)), False
        return (op, (cx, cy)), False

    def truth(self, c, d=0):
        """truth value of a condition that holds by reflexivity, or None"""
        if d > 6:
            return None
        if c.op == "const":
            return bool(c.args[0])
        if c.op == "not":
            r = self.truth(c.args[0], d + 1)
            return None if r is None else not r
        if c.op == "cmp" and c.args[0] in ("==", "<=", "is"):
            return True if self(c.args[1]) == self(c.args[2]) else None
        if c.op == "cmp" and c.args[0] == "<" and c.args[1].op == "index":
            # an index of range(n) is below n
            r = c.args[1].args[1]
            if r.op == "call" and r.args[0].op == "ext" and \
                    r.args[0].args[0] == "builtins.range":
                n = r.args[1][0] if len(r.args[1]) == 1 else r.args[1][1]
                if self(n) == self(c.args[2]):
                    return True
        if c.op == "call" and c.args[0].op == "ext" and \
                c.args[0].args[0] in ("numpy.all", "builtins.all",
                                      "numpy.allclose"):
            if c.args[0].args[0] == "numpy.allclose":
                return True if self(c.args[1][0]) == self(c.args[1][1]) \
                    else None
            return self.truth(c.args[1][0], d + 1)
        if c.op == "ite":
            r = self.truth(c.args[0], d + 1)
            if r is not None:
                return self.truth(c.args[1 if r else 2], d + 1)
        if c.op == "and":
            rs = [self.truth(x, d + 1) for x in c.args]
            return True if all(r is True for r in rs) else None
        return None

    def ite(self, t):
        c, x, y = t.args
        r = self.truth(c)
        if r is not None:
            return self(x if r else y)
        cx, cy = self(x), self(y)
        while c.op == "not":
            c = c.args[0]
            cx, cy = cy, cx
        if c.op == "cmp":
            key, mir = self.cmp(c)
            if mir:
                cx, cy = cy, cx
            if cx == cy:
                return cx
            return self.h("ite", self.h("cmp", key), cx, cy)
        if cx == cy:
            return cx
        return self.h("ite", self(c), cx, cy)


def why(t, u, ca, cb, seen=None):
    """A smallest pair of corresponding sub-terms that differ."""
    seen = {} if seen is None else seen
    if ca(t) == cb(u):
        return None
    k = (t.id, u.id)
    if k in seen:
        return seen[k]
    seen[k] = None
    here = "%s  /  %s" % (show(t, 5)[:300], show(u, 5)[:300])
    if t.op == u.op and len(t.kids()) == len(u.kids()):
        xs, ys = list(t.kids()), list(u.kids())
        for a in list(xs):
            for b in ys:
                if ca(a) == cb(b):
                    xs.remove(a)
                    ys.remove(b)
                    break
        best = None
        for a in xs:
            for b in ys:
                if a.op == b.op and not a.op == "param":
                    w = why(a, b, ca, cb, seen)
                    if w and (best is None or len(w) < len(best)):
                        best = w
        if best:
            here = best
    seen[k] = here
    return here
