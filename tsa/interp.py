"""The value-flow analysis: a flow-sensitive, interprocedural (call-inlining)
abstract interpreter over syntax trees with gated joins.

It never runs the analysed code: values are terms (see terms.py), both sides of
every undecided branch are analysed and joined, loops are analysed with their
carried values generalised, calls into libraries are uninterpreted terms.
"""
import ast
import re
import sys

from . import libmodel as lib
from .project import Func, Class, AnalysisError
from .feasible import feasible
from .terms import (T, mk, const, decided, NONE, TRUE, FALSE, UNDEF, cmp_,
                    not_, and_, or_, ite, ite_leaves, truth, never_none, walk, param, ext)

sys.setrecursionlimit(60000)

MAX_DEPTH = 40
UNROLL = 24


class Dead(Exception):
    """The current path ends here (an exception is always raised)."""


_REFS = {}


def refs_in(t):
    if not isinstance(t, T):
        return ()
    r = _REFS.get(t.id)
    if r is None:
        r = _REFS[t.id] = frozenset(x.args[0] for x in walk(t)
                                    if x.op == "ref")
    return r


class State(object):
    __slots__ = ("frames", "heap", "path", "facts")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.path = ()
        self.facts = {}

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.path = self.path
        s.facts = self.facts
        return s


class Event(object):
    __slots__ = ("kind", "node", "func", "stack", "facts", "path", "ctxs",
                 "d", "seq")

    def __getattr__(self, name):
        try:
            return self.d[name]
        except KeyError:
            raise AttributeError(name)

    def get(self, name, default=None):
        return self.d.get(name, default)

    def where(self):
        f = self.func
        return "%s:%s" % (f.module.rel, f.qual.split(".")[-2] + "." + f.name
                          if f.cls else f.name) if f else "?"

    def line(self):
        return getattr(self.node, "lineno", 0)


def add_fact(facts, c, v):
    """New facts dict in which condition ``c`` has truth value ``v``."""
    facts = dict(facts)
    todo = [(c, v)]
    while todo:
        c, v = todo.pop()
        if c.op == "not":
            todo.append((c.args[0], not v))
            continue
        facts[c] = v
        if c.op == "and" and v:
            todo += [(x, True) for x in c.args]
        elif c.op == "or" and not v:
            todo += [(x, False) for x in c.args]
        elif c.op == "ite":
            k, a, b = c.args
            ta, tb = truth(a), truth(b)
            if ta is not None and ta != v:
                todo += [(k, False), (b, v)]
            elif tb is not None and tb != v:
                todo += [(k, True), (a, v)]
    return facts


INF = float("inf")
QTY_ATTRS = ("value", "unit", "to", "isscalar", "shape", "size", "min", "max")
_KINDS = {"pix": "pix", "pixel": "pix", "deg": "ang", "arcsec": "arcsec",
          "arcmin": "arcmin", "rad": "rad", "radian": "rad", "degree": "ang",
          "pc": "len", "kpc": "kpc", "cm": "cm", "m": "m", "AU": "AU",
          "K": "temp", "Hz": "freq", "GHz": "freq", "s": "time",
          "kg": "mass", "dimensionless_unscaled": "1"}
# units of a kind, in units of it; a system of powers of two stands for
# the real one
_SIZES = {"arcsec": ("ang", 2. ** -12), "arcmin": ("ang", 2. ** -6),
          "rad": ("ang", 64.), "kpc": ("len", 1024.), "AU": ("len", 2. ** -18),
          "m": ("len", 2. ** -54), "cm": ("len", 2. ** -60)}


def size(k):
    """(kind, size in that kind) of a unit."""
    if k.startswith("1/"):
        d, f = size(k[2:])
        return "1/" + d, 1 / f
    if k.endswith("^2"):
        d, f = size(k[:-2])
        return d + "^2", f ** 2
    return _SIZES.get(k, (k, 1.))


def rescaled(v, f):
    """The numbers of a quantity times a factor."""
    if f == 1:
        return v
    if v.op == "vec":
        return mk("vec", *[const(x.args[0] * f) for x in v.args])
    return const(v.args[0] * f)


def qty(value, kind):
    """A scalar quantity: value in a unit of a kind (pix, ang, len ...)."""
    if isinstance(value, (list, tuple)):
        return mk("qty", mk("vec", *[const(float(v)) for v in value]), kind)
    return mk("qty", const(float(value)), kind)


_INST = {
    "HDU": ("_ImageBaseHDU", "PrimaryHDU", "_BaseHDU"),
    "ImageHDU": ("_ImageBaseHDU", "ImageHDU", "_BaseHDU"),
    "SpectralCube": ("SpectralCube", "BaseSpectralCube"),
    "Projection": ("Projection", "LowerDimensionalObject", "Quantity",
                   "ndarray"),
    "Slice": ("Slice", "LowerDimensionalObject", "Quantity", "ndarray"),
    "ndarray": ("ndarray",),
}
ARRAYS = ("Projection", "Slice", "ndarray")


def is_number(t):
    if t.op == "bin":
        return is_number(t.args[1]) and is_number(t.args[2])
    return t.op == "const" and isinstance(t.args[0], (int, float)) or \
        t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0].startswith("numpy.")


# f(x * q) == f(x) * q for q > 0
LINEAR = {"numpy." + n for n in (
    "abs", "absolute", "fabs", "min", "max", "nanmin", "nanmax", "diff",
    "squeeze", "ravel", "sort", "unique", "mean", "median", "sum")}


def factor(t):
    """The quantity that a term is a multiple of."""
    if t.op == "bin" and (t.args[0] == "*" or t.args[0] == "/" and
                          t.args[1].op == "qty"):
        qs = [x for x in t.args[1:] if x.op == "qty"]
        return qs[0] if len(qs) == 1 else None
    return None


def is_quantity(t):
    """numbers times a unit"""
    if t.op == "bin" and t.args[0] in ("*", "/"):
        a, b = t.args[1:]
        if is_quantity(a) or t.args[0] == "*" and is_quantity(b):
            return True
        if t.args[0] == "*":
            if a.op == "ext":
                a, b = b, a
            return b.op == "ext" and b.args[0].startswith(
                "astropy.units.") and is_number(a)
    return False


def inst(kind, shape=None, tag=None):
    """A data object of a known library type (and shape); the contents of
    objects with the same tag are the same."""
    if tag is not None:
        return mk("inst", kind, shape, tag)
    return mk("inst", kind) if shape is None else mk("inst", kind, shape)


def inst_attr(x, name):
    kind = x.args[0]
    shape = x.args[1] if len(x.args) > 1 else None
    tag = x.args[2] if len(x.args) > 2 else None
    if name == "data" and kind in ("HDU", "ImageHDU") and (shape or tag):
        return inst("ndarray", shape, tag)
    if name == "header" and tag and kind != "ndarray":
        return mk("param", "fmt", tag + ".header")
    if name in ("filled_data", "unmasked_data", "unitless_filled_data") \
            and tag and kind == "SpectralCube":
        if name != "filled_data":
            tag += "." + name
        return mk("inst", "view", shape, tag)
    return None


def shape_of(t):
    """The known shape of an array term, or None."""
    for _ in range(40):
        if t.op == "inst":
            return t.args[1] if len(t.args) > 1 and t.args[1] and (
                t.args[0] in ARRAYS) else None
        if t.op == "upd":
            t = t.args[0]
        elif t.op == "augupd":
            t = t.args[1]
        elif t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[1] in ("copy", "astype"):
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op == "ext" and t.args[1] and \
                t.args[0].args[0] in _SAME_SHAPE:
            if t.args[0].args[0] == "numpy.squeeze":
                s = shape_of(t.args[1][0])
                return None if s is None or t.args[2] or \
                    len(t.args[1]) > 1 else tuple(n for n in s if n != 1)
            t = t.args[1][0]
        elif t.op == "ite":
            a, b = shape_of(t.args[1]), shape_of(t.args[2])
            return a if a == b else None
        else:
            return None


_SAME_SHAPE = {"numpy." + n for n in (
    "squeeze", "copy", "array", "asarray", "asanyarray", "nan_to_num",
    "isnan", "isfinite", "abs", "ascontiguousarray")}


_NP_ATTRS = set("""astype shape size ndim dtype item min max sum mean copy any
all round real imag T flatten ravel squeeze tolist std var nonzero reshape clip
sort cumsum conj argmin argmax ptp prod dot repeat transpose view fill flat
itemsize nbytes""".split())


def lacks(t, name):
    """Is ``t`` a constant without the attribute?  (A number may be a numpy
    scalar.)"""
    if t.op != "const" or isinstance(t.args[0], (bytes, type)):
        return False
    v = t.args[0]
    if isinstance(v, (int, float)) and name in _NP_ATTRS:
        return False
    return not hasattr(v, name)


def vecs(*xs):
    """Elementwise constant operands, None when not applicable."""
    n = max([len(x.args) for x in xs if x.op == "vec"] or [0])
    if not n or any(x.op not in ("vec", "const") or
                    (x.op == "vec" and len(x.args) != n) for x in xs):
        return None
    return list(zip(*[x.args if x.op == "vec" else (x,) * n for x in xs]))


def fold_num(short, x):
    """numpy reductions / rounding of a constant number or vector."""
    if x.op == "vec":
        vs = [v.args[0] for v in x.args]
        if short in ("any", "all", "min", "max", "nanmin", "nanmax"):
            f = {"any": any, "all": all}.get(short) or (
                min if short.endswith("min") else max)
            return const(f(vs))
        if short in ("floor", "ceil", "round", "rint", "abs", "absolute",
                     "trunc"):
            out = [fold_num(short, v) for v in x.args]
            return None if None in out else mk("vec", *out)
        if short in ("asarray", "array", "atleast_1d", "copy", "ravel",
                     "squeeze", "asanyarray"):
            return x
        return None
    if x.op != "const" or isinstance(x.args[0], (str, bool)) or \
            not isinstance(x.args[0], (int, float)):
        return None
    v = x.args[0]
    if short in ("min", "max", "nanmin", "nanmax"):
        return x
    if short in ("abs", "absolute"):
        return const(abs(v))
    if short in ("floor", "ceil", "round", "rint", "trunc"):
        if v in (INF, -INF):
            return x
        import math
        return const(float({"floor": math.floor, "ceil": math.ceil,
                            "trunc": math.trunc}.get(short, round)(v)))
    return None


def inst_of(kind, cls):
    return cls.split(".")[-1] in _INST[kind]


def qty_attr(q, name):
    if name == "value":
        return q.args[0]
    if name == "unit":
        return mk("unit", q.args[1])
    if name == "isscalar":
        return const(q.args[0].op != "vec")
    if name == "size":
        return const(len(q.args[0].args))
    if name == "shape" and q.args[0].op == "vec":
        return mk("tuple", const(len(q.args[0].args)))
    return None


def unit_kind(t):
    """The kind of a unit term, None when unknown."""
    if t.op == "unit":
        return t.args[0]
    if t.op == "ext" and t.args[0].startswith("astropy.units."):
        return _KINDS.get(t.args[0].split(".")[-1])
    if t.op == "bin" and t.args[0] == "**" and t.args[2] is const(-1) or \
            t.op == "bin" and t.args[0] == "/" and t.args[1].op == "const":
        k = unit_kind(t.args[1 if t.args[0] == "**" else 2])
        return k and (k[2:] if k.startswith("1/") else "1/" + k)
    return None


def qty_bin(o, a, b):
    if o in ("*", "/") and a.op == "qty" and b.op == "const" and \
            isinstance(b.args[0], (int, float)) and b.args[0]:
        if a.args[0].op == "vec":
            return qty([x.args[0] * b.args[0] if o == "*" else
                        x.args[0] / b.args[0] for x in a.args[0].args],
                       a.args[1])
        v = a.args[0].args[0]
        return qty(v * b.args[0] if o == "*" else v / b.args[0], a.args[1])
    if o == "*" and b.op == "qty" and a.op == "const":
        return qty_bin(o, b, a)
    if o == "*" and a.op == b.op == "qty" and \
            a.args[0].op == b.args[0].op == "const" and \
            not any(c in a.args[1] + b.args[1] for c in "*/^"):
        return qty(a.args[0].args[0] * b.args[0].args[0],
                   a.args[1] + "*" + b.args[1])
    if o == "**" and a.op == "qty" and b is const(2) and \
            size(a.args[1])[0] in ("pix", "ang", "len"):
        v = a.args[0]
        return qty([x.args[0] ** 2 for x in v.args] if v.op == "vec" else
                   v.args[0] ** 2, a.args[1] + "^2")
    if o in "+-" and a.op == b.op == "qty" and a.args[1] == b.args[1] and \
            a.args[0].op == b.args[0].op == "const":
        x, y = a.args[0].args[0], b.args[0].args[0]
        return qty(x + y if o == "+" else x - y, a.args[1])
    if o in "*/" and b.op == "unit" and a.op == "const" and \
            isinstance(a.args[0], (int, float)):
        k = b.args[0]
        return qty(a.args[0], k if o == "*" else k[2:] if
                   k.startswith("1/") else "1/" + k)
    if o == "/" and b.op == "qty" and a.op == "const" and \
            isinstance(a.args[0], (int, float)):
        k = b.args[1]
        k = k[2:] if k.startswith("1/") else "1/" + k
        if b.args[0].op == "vec":
            return qty([a.args[0] / x.args[0] if x.args[0] else INF
                        for x in b.args[0].args], k)
        v = b.args[0].args[0]
        return qty(a.args[0] / v if v else INF, k)
    return None


_EQ = ("==", "is")


def decide(c, facts, depth=0):
    v = truth(c)
    if v is not None:
        return v
    if c in facts:
        return facts[c]
    if depth > 12:
        return None
    if c.op == "not":
        r = decide(c.args[0], facts, depth + 1)
        return None if r is None else not r
    if c.op == "and":
        rs = [decide(x, facts, depth + 1) for x in c.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        # unit propagation of a known-false conjunction is not needed
        return None
    if c.op == "or":
        rs = [decide(x, facts, depth + 1) for x in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if c.op == "ite":
        r = decide(c.args[0], facts, depth + 1)
        if r is True:
            return decide(c.args[1], facts, depth + 1)
        if r is False:
            return decide(c.args[2], facts, depth + 1)
        a = decide(c.args[1], facts, depth + 1)
        b = decide(c.args[2], facts, depth + 1)
        if a is not None and a == b:
            return a
        return None
    if c.op == "cmp":
        o, a, b = c.args
        if a.op == "ite":
            r = decide(a.args[0], facts, depth + 1)
            if r is not None:
                return decide(cmp_(o, a.args[1 if r else 2], b), facts,
                              depth + 1)
        if o in _EQ:
            other = mk("cmp", "is" if o == "==" else "==", a, b)
            if other in facts:
                if facts[other] or b.op == "const":
                    return facts[other]
            if b.op == "const":
                # x == 'a' known true -> x == 'b' false, x is None false
                for f, fv in facts.items():
                    if fv and f.op == "cmp" and f.args[0] in _EQ and \
                            f.args[1] is a and f.args[2].op == "const" and \
                            f.args[2] is not b:
                        return False
                if b is NONE:
                    for f, fv in facts.items():
                        if fv and f.op == "call" and f.args[1] and \
                                f.args[1][0] is a and \
                                f.args[0].op == "ext" and \
                                f.args[0].args[0] == "builtins.isinstance":
                            return False
                    if facts.get(a) is True:
                        return False
    if c.op in ("param", "attr", "sub", "get"):
        # truthiness: None is false
        n = facts.get(mk("cmp", "is", c, NONE))
        if n is True:
            return False
        for f, fv in facts.items():
            if fv and f.op == "cmp" and f.args[0] in _EQ and \
                    f.args[1] is c and f.args[2].op == "const":
                return bool(f.args[2].args[0])
    return None


_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
        ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<",
        ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&",
        ast.MatMult: "@"}
_UN = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
        ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
        ast.In: "in", ast.NotIn: "not in"}

_NP_BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/",
           "true_divide": "/", "power": "**", "float_power": "**",
           "floor_divide": "//", "mod": "%", "remainder": "%",
           "logical_and": "&", "logical_or": "|", "bitwise_and": "&",
           "bitwise_or": "|", "logical_xor": "^", "matmul": "@"}
_NP_CMP = {"greater": ">", "greater_equal": ">=", "less": "<",
           "less_equal": "<=", "equal": "==", "not_equal": "!="}
_NP_ALIAS = {"absolute": "abs", "fabs": "abs", "amax": "max", "amin": "min",
             "nanmax": "nanmax", "around": "round", "round_": "round",
             "conjugate": "conj", "product": "prod", "alltrue": "all",
             "sometrue": "any", "asfarray": "asarray"}
# methods of arrays that are the function of the same name
_METH_FN = {"sum", "mean", "std", "var", "min", "max", "any", "all", "copy",
            "ravel", "reshape", "transpose", "squeeze", "swapaxes", "round",
            "cumsum", "argmax", "argmin", "argsort", "nonzero", "conj",
            "conjugate", "prod", "clip", "dot", "repeat", "trace",
            "diagonal", "take", "ptp"}


class Interp(object):

    def __init__(self, project, no_inline=(), opaque_classes=(),
                 max_events=400000, assume=None):
        self.p = project
        self.no_inline = set(no_inline)
        self.stubs = {}
        self.ext_stubs = {}     # library function -> value
        self.item_stubs = []    # (attribute, index or None, item of it)
        self.allocated = set()
        self.stubbed = []
        # convert quantities with the equivalencies of the program
        self.convert = False
        self.opaque_classes = set(opaque_classes)
        self.events = []
        self.mute = 0
        self.loops_run = False   # loops over data run at least once
        self.strict = False      # missing attributes / keys end the path
        self.st = State()
        self.fstack = []      # parallel to st.frames
        self.callstack = []   # (Func, call node)
        self.ctxs = ()
        self.objclass = {}
        self.closures = {}
        self.alloc_n = {}
        self.functions_seen = set()
        self.calls_inlined = 0
        self.branches = 0
        self.loops = 0
        self.ext_calls = 0
        self.gcache = {}
        self.default_refs = {}
        self.max_events = max_events
        self._alloc_tag = ""
        self.on_call = None
        if assume:
            for c, v in assume:
                self.st.facts = add_fact(self.st.facts, c, v)

    # -------------------------------------------------------------- events
    def ev(self, kind, node, **d):
        if self.mute:
            return None
        e = Event()
        e.kind = kind
        e.node = node
        e.func = self.fstack[-1]["func"] if self.fstack else None
        e.stack = tuple(self.callstack)
        e.facts = self.st.facts
        e.path = self.st.path
        e.ctxs = self.ctxs
        e.d = d
        e.seq = len(self.events)
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise AnalysisError("event budget exceeded")
        return e

    # --------------------------------------------------------------- joins
    def join2(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = State()
        n = min(len(a.frames), len(b.frames))
        for i in range(n):
            fa, fb = a.frames[i], b.frames[i]
            r.frames.append(self._join_map(c, fa, fb))
        for k in set(a.heap) | set(b.heap):
            ha, hb = a.heap.get(k), b.heap.get(k)
            if ha is None:
                r.heap[k] = dict(hb)
            elif hb is None:
                r.heap[k] = dict(ha)
            else:
                r.heap[k] = self._join_map(c, ha, hb)
        i = 0
        while i < len(a.path) and i < len(b.path) and \
                a.path[i] == b.path[i]:
            i += 1
        r.path = a.path[:i]
        if a.facts is b.facts:
            r.facts = a.facts
        else:
            fb = b.facts
            r.facts = {k: v for k, v in a.facts.items()
                       if k in fb and fb[k] == v}
        return r

    def _join_map(self, c, fa, fb):
        if fa == fb:
            return dict(fa)
        out = {}
        for k in fa:
            va = fa[k]
            vb = fb.get(k, UNDEF)
            out[k] = va if va is vb else ite(c, va, vb)
        for k in fb:
            if k not in fa:
                out[k] = ite(c, UNDEF, fb[k])
        return out

    def join_many(self, states, tag, base=None):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        i = 0
        while all(len(s.path) > i for s in states) and all(
                s.path[i] == states[0].path[i] for s in states):
            i += 1
        if base is None:
            base = i
        first = [s for s in states if len(s.path) > i]
        if not first:
            k = len(states) // 2
            return self.join2(mk("choice", tag, len(states)),
                              self.join_many(states[:k], tag, base),
                              self.join_many(states[k:], tag, base))
        c = first[0].path[i][0]
        g1 = [s for s in states if len(s.path) > i and
              s.path[i] == (c, True)]
        g0 = [s for s in states if len(s.path) > i and
              s.path[i] == (c, False)]
        rest = [s for s in states if s not in g1 and s not in g0]
        j = None
        if g1 and g0:
            j = self.join2(c, self.join_many(g1, tag, base),
                           self.join_many(g0, tag, base))
        elif g1:
            j = self.join_many(g1, tag, base) if rest else None
        elif g0:
            j = self.join_many(g0, tag, base) if rest else None
        if j is None:
            j = self.join_many(g1 or g0, tag, base)
        if rest:
            lit = (g1 or g0)
            j = self.join2(c if not (g1 and g0) and g1 else
                           (not_(c) if g0 and not g1 else
                            mk("choice", tag, i - base)),
                           j, self.join_many(rest, tag, base))
        return j

    def assume(self, c, v):
        self.st.path = self.st.path + ((c, v),)
        self.st.facts = add_fact(self.st.facts, c, v)

    def branch(self, c, ft, ff):
        """Run ft under c, ff under not c, join; returns joined value."""
        while c.op == "not":
            c = c.args[0]
            ft, ff = ff, ft
        d = decide(c, self.st.facts)
        if d is True:
            return ft()
        if d is False:
            return ff()
        self.branches += 1
        pre = self.st
        a = pre.copy()
        self.st = a
        self.assume(c, True)
        va = vb = None
        try:
            va = ft()
            sa = self.st
        except Dead:
            sa = None
        b = pre.copy()
        self.st = b
        self.assume(c, False)
        try:
            vb = ff()
            sb = self.st
        except Dead:
            sb = None
        if sa is None and sb is None:
            self.st = None
            raise Dead()
        if sa is None:
            self.st = sb
            return vb
        if sb is None:
            self.st = sa
            return va
        self.st = self.join2(c, sa, sb)
        if va is None and vb is None:
            return None
        return ite(c, va, vb)

    # ---------------------------------------------------------- heap utils
    def site(self, node):
        f = self.fstack[-1]["func"] if self.fstack else None
        return "%s:%s:%s" % (f.qual if f else "?",
                             getattr(node, "lineno", 0),
                             getattr(node, "col_offset", 0))

    def loop_site(self, node):
        return "%s@L%d" % (self.site(node), sum(
            len(f["loops"]) for f in self.fstack))

    def alloc(self, kind, node, cls=None):
        chain = "|".join("%s:%s" % (f.qual, getattr(n, "lineno", 0))
                         for f, n in self.callstack[-8:])
        key = "%s@%s%s#%s" % (kind, self._alloc_tag, self.site(node), chain)
        # loops re-execute the same site: same abstract object
        ref = mk("ref", key)
        self.allocated.add(key)
        if cls is not None:
            self.objclass[ref] = cls
            self.st.heap[key] = {}
        else:
            self.st.heap[key] = {}
        return ref

    def new_list(self, node, items):
        r = self.alloc("list", node)
        self.st.heap[r.args[0]]["__val__"] = mk("list", *items)
        return r

    def new_dict(self, node, val):
        r = self.alloc("dict", node)
        self.st.heap[r.args[0]]["__val__"] = val
        return r

    def kind(self, t):
        return t.args[0].split("@")[0] if t.op == "ref" else None

    def val(self, t):
        """Content term of a container reference (or the term itself)."""
        if t.op == "ref":
            h = self.st.heap.get(t.args[0])
            if h is not None and "__val__" in h:
                return h["__val__"]
        return t

    def setval(self, ref, v):
        self.st.heap[ref.args[0]]["__val__"] = v

    def snap(self, t, depth=0):
        """Replace container references by their contents."""
        if depth > 6:
            return t
        if t.op == "ref":
            v = self.val(t)
            if v is not t:
                return self.snap(v, depth + 1)
            return t
        if t.op in ("tuple", "list", "dict", "ite", "dset", "dmerge",
                    "append", "star"):
            changed = False

            def rec(a):
                nonlocal changed
                if isinstance(a, T):
                    b = self.snap(a, depth + 1)
                    if b is not a:
                        changed = True
                    return b
                if isinstance(a, tuple):
                    return tuple(rec(x) for x in a)
                return a
            args = tuple(rec(a) for a in t.args)
            if changed:
                return ite(*args) if t.op == "ite" else mk(t.op, *args)
        return t

    def resolve(self, t):
        while t.op == "ite":
            d = decide(t.args[0], self.st.facts)
            if d is True:
                t = t.args[1]
            elif d is False:
                t = t.args[2]
            else:
                break
        return t

    def prune_undef(self, t, node, what, name):
        """Remove UNDEF alternatives; emit an event when there is one."""
        t = self.resolve(t)
        if t is UNDEF:
            self.ev("undef", node, what=what, name=name, must=True,
                    cond=TRUE)
            return mk("opaque", "undef", what, name)
        if t.op != "ite":
            return t
        hit = []

        def rec(x, facts, depth):
            if x is UNDEF:
                hit.append(facts)
                return None
            if x.op != "ite" or depth > 30:
                return x
            c, a, b = x.args
            d = decide(c, facts)
            if d is True:
                return rec(a, facts, depth + 1)
            if d is False:
                return rec(b, facts, depth + 1)
            ra = rec(a, add_fact(facts, c, True), depth + 1)
            rb = rec(b, add_fact(facts, c, False), depth + 1)
            if ra is None:
                return rb
            if rb is None:
                return ra
            return ite(c, ra, rb)
        if not any(x is UNDEF for x in ite_leaves(t)):
            return t
        r = rec(t, self.st.facts, 0)
        hit = [h for h in hit if feasible(h.items())]
        if hit:
            base = self.st.facts
            cond = [(c, v) for c, v in hit[0].items() if c not in base]
            self.ev("undef", node, what=what, name=name, must=r is None,
                    cond=tuple(cond), nalt=len(hit))
        return r if r is not None else mk("opaque", "undef", what, name)

    def rebind(self, old, new):
        if old is new:
            return

        def rep(v):
            if v is old:
                return new
            if v.op == "ite" and old in ite_leaves(v):
                return self._ite_replace(v, old, new)
            return v
        for f in self.st.frames:
            for k, v in f.items():
                if isinstance(v, T):
                    w = rep(v)
                    if w is not v:
                        f[k] = w
        for h in self.st.heap.values():
            for k, v in h.items():
                if isinstance(v, T):
                    w = rep(v)
                    if w is not v:
                        h[k] = w

    def _ite_replace(self, t, old, new):
        if t is old:
            return new
        if t.op == "ite":
            return ite(t.args[0], self._ite_replace(t.args[1], old, new),
                       self._ite_replace(t.args[2], old, new))
        return t

    def inplace(self, base, new, _depth=0):
        """``base`` (an array-like term) has been changed in place to
        ``new``: update every holder, also through view chains."""
        self.rebind(base, new)
        if _depth > 6:
            return
        if base.op == "sub":
            par = base.args[0]
            if par.op not in ("const", "ref") and \
                    not lib.fancy(base.args[1]):
                self.inplace(par, mk("upd", par, base.args[1], new),
                             _depth + 1)
        elif base.op == "attr" and base.args[1] in lib.VIEW_ATTRS:
            par = base.args[0]
            if par.op not in ("const", "ref", "ext", "mod"):
                self.inplace(par, mk("uattr", par, base.args[1], new),
                             _depth + 1)
        elif base.op == "call" and base.args[0].op == "ext" and \
                base.args[0].args[0] in lib.VIEW_FUNCS and base.args[1]:
            par = base.args[1][0]
            if par.op not in ("const", "ref"):
                self.inplace(par, mk("upd", par, mk("via", base.args[0]),
                                     new), _depth + 1)

    # ------------------------------------------------------------ classes
    def cls_of(self, t):
        return self.objclass.get(t)

    def getattr(self, base, name, node, quiet=False):
        base = self.resolve(base)
        if base.op == "qty":
            r = qty_attr(base, name)
            if r is not None:
                return r
        if self.convert and name in ("unit", "value"):
            q = factor(base)
            if q is not None and name == "unit":
                return mk("unit", q.args[1])
            if q is not None:
                return self.binop(base.args[0], *[
                    x.args[0] if x is q else x for x in base.args[1:]])
        if base.op == "inst" and len(base.args) > 1:
            r = inst_attr(base, name)
            if r is not None:
                return r
        if name in ("shape", "ndim", "size"):
            sh = shape_of(base)
            if sh is not None:
                if name == "shape":
                    return mk("tuple", *[const(n) for n in sh])
                if name == "ndim":
                    return const(len(sh))
        if self.strict and lacks(base, name):
            self.ev("noattr", node, base=base, name=name)
            raise Dead()
        if base.op == "ite":
            c, a, b = base.args
            return self.branch(c, lambda: self.getattr(a, name, node, quiet),
                               lambda: self.getattr(b, name, node, quiet))
        if base.op == "ref":
            cls = self.cls_of(base)
            if cls is not None:
                return self._inst_attr(base, cls, name, node)
            if self.kind(base) in ("list", "dict", "set"):
                return mk("attr", base, name)
        if base.op == "super":
            cls, obj = base.args[0], base.args[1]
            k = self.cls_of(obj)
            chain = self.p.mro(k) if k else []
            seen = False
            for c in chain:
                if seen:
                    for d in ("props", "methods"):
                        if name in getattr(c, d):
                            f = getattr(c, d)[name]
                            if d == "props":
                                return self.call_func(f, [obj], [], node)
                            return mk("bound", obj, f.qual)
                if c.qual == cls:
                    seen = True
            return mk("attr", base, name)
        if base.op == "ext":
            return ext(base.args[0] + "." + name)
        if base.op == "mod":
            r = self._from_lookup(self.p.lookup(base.args[0], name), node)
            return r if r is not None else mk("attr", base, name)
        if base.op == "class":
            cls = self.p.classes.get(base.args[0])
            if cls is not None:
                hit = self.p.find(cls, name)
                if hit:
                    k, f = hit
                    if k == "methods":
                        if f.kind == "classmethod":
                            return mk("bound", base, f.qual)
                        return mk("func", f.qual)
                    if k == "attrs":
                        return self.class_attr(f)
            if name == "__name__":
                return const(base.args[0].split(".")[-1])
            return mk("attr", base, name)
        if base.op == "uattr":
            if base.args[1] == name:
                return base.args[2]
            return self.getattr(base.args[0], name, node, quiet)
        if base.op == "stat":
            return self._stat_attr(base, name, node)
        if base.op == "upd" and name in ("shape", "size", "ndim", "dtype",
                                         "unit", "wcs", "header"):
            return self.getattr(base.args[0], name, node, quiet)
        if base.op == "augupd" and name in ("shape", "ndim", "size"):
            return self.getattr(base.args[1], name, node, quiet)
        return mk("attr", base, name)

    def _stat_attr(self, base, name, node):
        return mk("attr", base, name)

    def class_attr(self, pair):
        c, expr = pair
        key = ("cattr", c.qual, ast.dump(expr)[:400])
        if key not in self.gcache:
            self.gcache[key] = self.eval_in_module(c.module, expr)
        return self.gcache[key]

    def _inst_attr(self, base, cls, name, node):
        hit = self.p.find(cls, name)
        if hit and hit[0] == "props":
            return self.call_func(hit[1], [base], [], node)
        h = self.st.heap.setdefault(base.args[0], {})
        if name in h:
            v = h[name]
            if v is UNDEF or (v.op == "ite" and
                              any(x is UNDEF for x in ite_leaves(v))):
                if hit and hit[0] in ("attrs", "methods"):
                    fb = self.class_attr(hit[1]) if hit[0] == "attrs" \
                        else mk("bound", base, hit[1].qual)
                    return self.resolve(self._ite_replace(v, UNDEF, fb))
                v2 = self.prune_undef(v, node, "attr", name)
                return v2
            return self.resolve(v)
        if hit:
            k, f = hit
            if k == "methods":
                if f.kind == "staticmethod":
                    return mk("func", f.qual)
                if f.kind == "classmethod":
                    return mk("bound", mk("class", cls.qual), f.qual)
                return mk("bound", base, f.qual)
            if k == "attrs":
                return self.class_attr(f)
        if name == "__class__":
            return mk("class", cls.qual)
        if name == "__dict__":
            return mk("attr", base, "__dict__")
        self.p.mro(cls)
        if cls.ext_bases or "__unknown__" in h:
            return mk("attr", base, name)
        self.ev("undef", node, what="attr", name=name, must=True, cond=(),
                obj=base, missing=True)
        return mk("opaque", "undef", "attr", name)

    def setattr(self, base, name, v, node):
        base = self.resolve(base)
        if base.op == "ite":
            c, a, b = base.args
            self.branch(c, lambda: self.setattr(a, name, v, node) or NONE,
                        lambda: self.setattr(b, name, v, node) or NONE)
            return
        if base.op == "ref":
            cls = self.cls_of(base)
            if cls is not None:
                for c in self.p.mro(cls):
                    if name in c.setters:
                        self.call_func(c.setters[name], [base, v], [], node)
                        return
                    if name in c.props:
                        self.ev("bad_store", node, obj=base, name=name)
                        return
                    if name in c.methods:
                        break
                self.ev("store", node, obj=base, name=name, value=v)
                self.st.heap.setdefault(base.args[0], {})[name] = v
                return
        self.ev("mut", node, target=base, how="setattr", idx=const(name),
                value=v)
        if base.op not in ("const", "ref", "ext", "class", "func", "mod"):
            self.inplace(base, mk("uattr", base, name, v))
        elif base.op == "class" or base.op == "mod":
            self.ev("global_store", node, target=base, name=name, value=v)

    def hasattr(self, base, name, node):
        base = self.resolve(base)
        if base.op == "ite":
            c, a, b = base.args
            return self.branch(c, lambda: self.hasattr(a, name, node),
                               lambda: self.hasattr(b, name, node))
        if base.op == "ref" and self.cls_of(base) is not None:
            cls = self.cls_of(base)
            hit = self.p.find(cls, name)
            if hit and hit[0] == "props":
                # does the getter succeed?
                n0 = len(self.events)
                mute, self.mute = self.mute, 0
                save = self.st.copy()
                try:
                    self.call_func(hit[1], [base], [], node)
                    evs = self.events[n0:]
                    dead = False
                except Dead:
                    evs = self.events[n0:]
                    dead = True
                del self.events[n0:]
                self.mute = mute
                self.st = save
                if dead:
                    return FALSE
                und = [e for e in evs if e.kind == "undef"]
                if any(e.must for e in und):
                    return FALSE
                if und:
                    # defined iff not the recorded conditions
                    cs = [c if v else not_(c) for c, v in und[0].cond]
                    return not_(and_(*cs)) if cs else \
                        mk("opaque", "hasattr", base, name)
                return TRUE
            h = self.st.heap.get(base.args[0], {})
            if name in h:
                def rec(x):
                    if x is UNDEF:
                        return TRUE if hit else FALSE
                    if x.op == "ite":
                        return ite(x.args[0], rec(x.args[1]),
                                   rec(x.args[2]))
                    return TRUE
                r = self.resolve(rec(h[name]))
                v = decided(r)
                return r if v is None else TRUE if v else FALSE
            if hit:
                return TRUE
            self.p.mro(cls)
            if cls.ext_bases or "__unknown__" in h:
                return mk("opaque", "hasattr", base, name)
            return FALSE
        if base.op == "qty":
            return const(name in QTY_ATTRS)
        if name in ("value", "unit") and is_quantity(base):
            return TRUE
        if base.op == "inst" and name == "header" and base.args[0] in _INST:
            return const(base.args[0] != "ndarray")
        if base.op == "const":
            return const(hasattr(base.args[0], name))
        return mk("call", ext("builtins.hasattr"), (base, const(name)), ())

    # ------------------------------------------------------------- globals
    def _from_lookup(self, r, node=None):
        if r is None:
            return None
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return self.canon_ext(r[1])
        if r[0] == "assign":
            m, name = r[1], r[2]
            key = ("g", m.name, name)
            if key in self.gcache:
                g = self.gcache[key]
                if g.op == "ref" and g.args[0] in self.default_refs and \
                        g.args[0] not in self.st.heap:
                    # first use in this state
                    self.st.heap[g.args[0]] = dict(
                        self.default_refs[g.args[0]])
                return g
            vals = m.assigns[name]
            if len(vals) == 1 and not vals[0][1] and vals[0][0] is not None:
                self.gcache[key] = mk("global", m.name, name)
                v = self.eval_in_module(m, vals[0][0])
                if v.op == "ref" or any(x.op == "ref" for x in walk(v)):
                    # a shared mutable module-level object
                    if self.kind(v) in ("list", "dict", "set"):
                        g = mk("ref", "%s@global:%s.%s" %
                               (self.kind(v), m.name, name))
                        self._persist(g, {"__val__": self.val(v)})
                        v = g
                self.gcache[key] = v
                return v
            g = mk("global", m.name, name)
            self.gcache[key] = g
            return g
        return None

    def _persist(self, ref, h):
        self.default_refs[ref.args[0]] = h
        self.st.heap[ref.args[0]] = dict(h)

    def canon_ext(self, name):
        for pre in lib.PYFFTW_PREFIXES:
            if name.startswith(pre):
                return ext("numpy.fft." + name[len(pre):])
        if name.startswith("numpy."):
            parts = name.split(".")
            if len(parts) == 2 and parts[1] in _NP_ALIAS:
                return ext("numpy." + _NP_ALIAS[parts[1]])
        return ext(name)

    def eval_in_module(self, module, expr):
        f = Func(module, ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=expr),
            qual=module.name + ".<module>")
        self.st.frames.append({})
        self.fstack.append({"func": f, "returns": [], "loops": [],
                            "encl": None, "yields": []})
        try:
            return self.eval(expr)
        except Dead:
            return mk("opaque", "dead")
        finally:
            self.fstack.pop()
            self.st.frames.pop()

    def lookup_name(self, name, node):
        fr = self.st.frames[-1]
        info = self.fstack[-1]
        f = info["func"]
        if name in fr:
            return self.prune_undef(fr[name], node, "local", name)
        if name in f.local_names() and not isinstance(f.node, ast.Lambda):
            # assigned somewhere in this function but not on this path
            self.ev("undef", node, what="local", name=name, must=True,
                    cond=())
            return mk("opaque", "undef", "local", name)
        encl = info.get("encl")
        while encl is not None:
            snapv, fid, up = encl
            live = None
            for i, fi in enumerate(self.fstack):
                if fi is fid:
                    live = self.st.frames[i]
            d = live if live is not None else snapv
            if name in d:
                return self.prune_undef(d[name], node, "local", name)
            encl = up
        r = self._from_lookup(self.p.lookup(f.module.name, name), node)
        if r is not None:
            return r
        if name in lib.BUILTINS:
            if name == "True":
                return TRUE
            return ext("builtins." + name)
        if name in ("__name__", "__file__", "__doc__"):
            return mk("global", f.module.name, name)
        self.ev("undef", node, what="name", name=name, must=True, cond=())
        return mk("opaque", "undef", "name", name)

    # ---------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            kids = []
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    kids.append(self.eval(c))
            return mk("opaque", type(e).__name__, *kids)
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup_name(e.id, e)

    def e_Attribute(self, e):
        v = self.eval(e.value)
        self.none_use(v, e, "attribute ." + e.attr)
        return self.getattr(v, e.attr, e)

    def none_use(self, t, node, how):
        """Report an operation None does not have."""
        t = self.resolve(t)
        if t is NONE:
            self.ev("none", node, how=how, cond=())
            return
        if t.op == "param":
            d = decide(mk("cmp", "is", t, NONE), self.st.facts)
            if d is True:
                self.ev("none", node, how=how, cond=())
            return
        if t.op != "ite" or not any(x is NONE for x in ite_leaves(t)):
            return
        hit = []

        def rec(x, facts, depth):
            if x is NONE:
                hit.append(facts)
            elif x.op == "ite" and depth < 30 and len(hit) < 8:
                c, a, b = x.args
                d = decide(c, facts)
                if d is not False:
                    rec(a, facts if d else add_fact(facts, c, True),
                        depth + 1)
                if d is not True:
                    rec(b, facts if d is False else
                        add_fact(facts, c, False), depth + 1)
        rec(t, self.st.facts, 0)
        for h in hit:
            if feasible(h.items()):
                base = self.st.facts
                self.ev("none", node, how=how, cond=tuple(
                    (c, v) for c, v in h.items() if c not in base))
                return

    def e_Tuple(self, e):
        return mk("tuple", *self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.snap(self.eval(x.value))
                if v.op in ("tuple", "list"):
                    out += list(v.args)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(e, self._elts(e.elts))

    def e_Set(self, e):
        return mk("set", *self._elts(e.elts))

    def e_Dict(self, e):
        val = mk("dict")
        items = []
        simple = True
        for k, v in zip(e.keys, e.values):
            if k is None:
                simple = False
        if simple:
            for k, v in zip(e.keys, e.values):
                items.append((self.eval(k), self.eval(v)))
            val = mk("dict", *items)
        else:
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = self.val(self.eval(v))
                    val = self.dmerge(val, x)
                else:
                    val = self.dset(val, self.eval(k), self.eval(v))
        return self.new_dict(e, val)

    def fstring(self, bits, xs):
        parts = []
        for b, x in zip(bits, list(xs) + [None]):
            if b:
                parts.append(const(b))
            if x is not None:
                parts.append(x)
        return mk("fstr", *parts)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value))
            else:
                parts.append(self.eval(v))
        if all(p.op == "const" for p in parts):
            return const("".join(str(p.args[0]) for p in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_Lambda(self, e):
        return self._closure(Func(self.fstack[-1]["func"].module, e,
                                  qual=self.fstack[-1]["func"].qual +
                                  ".<lambda>"), e)

    def _closure(self, f, node):
        info = self.fstack[-1]
        fr = self.st.frames[-1]
        free = sorted({n.id for n in ast.walk(node)
                       if isinstance(n, ast.Name) and n.id in fr})
        cap = tuple((n, fr[n]) for n in free if isinstance(fr[n], T))
        t = mk("closure", "%s:%s:%s" % (f.qual, node.lineno,
                                        node.col_offset), cap)
        self.closures[t] = (f, (dict(fr), info, info.get("encl")))
        return t

    def e_Starred(self, e):
        return mk("star", self.eval(e.value))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        self.fstack[-1]["yields"].append(v)
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        self.fstack[-1]["yields"].append(mk("elem", self.snap(v),
                                            self.site(e)))
        return NONE

    def e_IfExp(self, e):
        c = self.eval(e.test)
        return self.branch(self.truthy(c), lambda: self.eval(e.body),
                           lambda: self.eval(e.orelse))

    def truthy(self, c):
        c = self.resolve(c)
        if c.op == "ref":
            v = self.val(c)
            if v is not c:
                if v.op in ("list", "dict") and not any(
                        isinstance(x, T) and x.op == "star"
                        for x in v.args):
                    return const(len(v.args) > 0)
                return mk("truthy", v)
            return TRUE
        if c.op == "ite":
            k, a, b = c.args
            if a.op == "ref" or b.op == "ref" or a.op == "const" or \
                    b.op == "const":
                return ite(k, self.truthy(a), self.truthy(b))
        # bool(x) is x as a condition; x.any() / np.any(x) the same term
        if c.op == "call" and c.args[0].op == "ext" and \
                c.args[0].args[0] in ("builtins.bool", "numpy.bool_") and \
                len(c.args[1]) == 1:
            return self.truthy(c.args[1][0])
        if c.op == "cmp" and c.args[0] == "<" and \
                c.args[1].op == "const" and c.args[1].args[0] == 0:
            # len(x) > 0 -> truthiness of x (containers only)
            x = c.args[2]
            if x.op == "call" and x.args[0].op == "ext" and \
                    x.args[0].args[0] == "builtins.len":
                pass
        return c

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        pre = self.st.facts
        prepath = self.st.path
        try:
            for i, x in enumerate(e.values):
                v = self.eval(x)
                vals.append(v)
                c = self.truthy(v)
                d = decide(c, self.st.facts)
                if d is not None and d != isand:
                    break
                if i + 1 < len(e.values) and d is None:
                    self.st.facts = add_fact(self.st.facts, c, isand)
        finally:
            if self.st is not None:
                self.st.facts = pre
                self.st.path = prepath
        # value semantics: `x or y`
        if not isand and len(vals) == 2 and not self._boolish(vals[0]):
            return ite(self.truthy(vals[0]), vals[0], vals[1])
        if isand and len(vals) == 2 and not self._boolish(vals[0]) and \
                not self._boolish(vals[1]):
            return ite(self.truthy(vals[0]), vals[1], vals[0])
        cs = [self.truthy(v) for v in vals]
        out = []
        for c in cs:
            d = decide(c, pre)
            out.append(c if d is None else const(d))
        return and_(*out) if isand else or_(*out)

    def _boolish(self, t):
        if t.op in ("cmp", "not", "and", "or"):
            return True
        if t.op == "const":
            return isinstance(t.args[0], bool)
        if t.op == "ite":
            return self._boolish(t.args[1]) or self._boolish(t.args[2])
        if t.op == "call" and t.args[0].op == "ext":
            return t.args[0].args[0] in (
                "builtins.isinstance", "builtins.hasattr", "builtins.bool",
                "numpy.any", "numpy.all", "builtins.any", "builtins.all",
                "builtins.callable", "numpy.allclose", "numpy.isscalar")
        if t.op == "call" and t.args[0].op == "attr":
            return t.args[0].args[1] in ("endswith", "startswith",
                                         "is_equivalent")
        if t.op == "opaque" and t.args[0] == "hasattr":
            return True
        return False

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truthy(v))
        o = _UN[type(e.op)]
        return self.unop(o, v)

    def unop(self, o, v):
        if v.op == "const":
            try:
                x = v.args[0]
                return const(-x if o == "-" else (+x if o == "+" else ~x))
            except Exception:
                pass
        if o == "~":
            if v.op == "cmp" or v.op == "not":
                return not_(v)
            if v.op == "inv":
                return v.args[0]
            return mk("inv", v)
        if o == "+":
            return v
        return mk("un", o, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(_BIN[type(e.op)], a, b, e)

    def binop(self, o, a, b, node=None):
        if a.op == "const" and b.op == "const":
            x, y = a.args[0], b.args[0]
            try:
                if o == "+":
                    return const(x + y)
                if o == "-":
                    return const(x - y)
                if o == "*" and not (isinstance(x, str) and y > 100):
                    return const(x * y)
                if o == "/":
                    return const(x / y)
                if o == "//":
                    return const(x // y)
                if o == "%":
                    return const(x % y)
                if o == "**" and abs(y) < 64:
                    return const(x ** y)
            except Exception:
                pass
        if self.convert and b.op in ("ext", "bin") and a.op == "const" and \
                o in "*/" and unit_kind(b):
            b = mk("unit", unit_kind(b))
        if "qty" in (a.op, b.op) or b.op == "unit":
            r = qty_bin(o, a, b)
            if r is not None:
                return r
        if "vec" in (a.op, b.op):
            vs = vecs(a, b)
            if vs is not None:
                return mk("vec", *[self.binop(o, x, y) for x, y in vs])
        if self.strict and o in ("/", "-", "**", "//"):
            for x in (a, b):
                if x.op == "const" and isinstance(x.args[0], str):
                    raise Dead()
        for x in (a, b):
            if x.op == "const" and isinstance(x.args[0], float) and \
                    x.args[0] in (INF, -INF) and o in ("+", "-"):
                # infinity and something finite
                return x if x is a or o == "+" else const(-x.args[0])
        if o == "%" and a.op == "const" and isinstance(a.args[0], str):
            bb = self.snap(b)
            try:
                if bb.op == "tuple" and all(x.op == "const"
                                            for x in bb.args):
                    return const(a.args[0] % tuple(x.args[0]
                                                   for x in bb.args))
            except Exception:
                pass
            xs = bb.args if bb.op == "tuple" else (bb,)
            bits = a.args[0].split("%s")
            if len(bits) == len(xs) + 1 and "%" not in "".join(bits):
                return self.fstring(bits, xs)
            return mk("fstr", a, bb)
        if o == "*" and b.op == "const" and type(b.args[0]) is int and \
                0 < b.args[0] < 9:
            x = self.snap(a)
            if x.op == "list" and node is not None and not any(
                    y.op == "star" for y in x.args):
                return self.new_list(node, list(x.args) * b.args[0])
            if x.op == "tuple" and not any(y.op == "star" for y in x.args):
                return mk("tuple", *(list(x.args) * b.args[0]))
        if o == "+":
            x, y = self.snap(a), self.snap(b)
            if x.op == "list" and y.op == "list" and node is not None:
                return self.new_list(node, list(x.args) + list(y.args))
            if x.op == "tuple" and y.op == "tuple":
                return mk("tuple", *(list(x.args) + list(y.args)))
        if o == "|" and a.op == "ref" and self.kind(a) == "dict":
            return self.new_dict(node, self.dmerge(self.val(a), self.val(b)))
        if o in ("&", "|"):
            xs = []
            for t in (a, b):
                if t.op == "bool" + o:
                    xs += list(t.args)
                else:
                    xs.append(t)
            xs = sorted(set(xs), key=lambda t: t.id)
            return xs[0] if len(xs) == 1 else mk("bool" + o, *xs)
        if o == "*":
            # list * n stays opaque
            pass
        return mk("bin", o, self.snap(a), self.snap(b))

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            o = _CMP[type(op)]
            if o in ("is", "is not"):
                lit = [x for x in (left, right) if x.op == "const" and
                       not isinstance(x.args[0], (bool, type(None),
                                                  type(Ellipsis)))]
                if lit:
                    self.ev("identity", e, lit=lit[0],
                            other=left if lit[0] is right else right)
            out.append(self.compare(o, left, right, e))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, o, a, b, node):
        if o in ("in", "not in"):
            r = self.contains(b, a, node)
            return r if o == "in" else not_(r)
        if a.op == "ref" and b.op == "ref" and o in ("==", "!="):
            a, b = self.snap(a), self.snap(b)
        if a.op == "qty" and b.op == "qty" and a.args[1] == b.args[1] and \
                o not in ("is", "is not"):
            a, b = a.args[0], b.args[0]
        if "unit" in (a.op, b.op) and o in ("==", "!="):
            ks = [unit_kind(x) for x in (a, b)]
            if None not in ks and ks[0] != ks[1]:
                return const(o == "!=")
        if "vec" in (a.op, b.op) and o not in ("is", "is not"):
            vs = vecs(a, b)
            if vs is not None:
                return mk("vec", *[cmp_(o, x, y) for x, y in vs])
        return cmp_(o, self.snap(a) if o not in ("is", "is not") else a,
                    self.snap(b) if o not in ("is", "is not") else b)

    def contains(self, cont, key, node):
        v = self.val(self.resolve(cont))
        r = self.dcontains(v, key)
        if r is not None:
            return r
        return cmp_("in", key, self.snap(v))

    # ------------------------------------------------------- dict contents
    def dset(self, val, k, v):
        if val.op == "dict":
            items = list(val.args)
            if all(isinstance(x, tuple) and x[0].op == "const"
                   for x in items) and k.op == "const":
                out = [(a, b) for a, b in items if a is not k]
                out.append((k, v))
                return mk("dict", *out)
        return mk("dset", val, k, v)

    def dmerge(self, a, b):
        b = self.val(b)
        if b.op == "dict":
            for k, v in b.args:
                a = self.dset(a, k, v)
            return a
        if a.op == "dict" and not a.args:
            return mk("dcopy", b)
        return mk("dmerge", a, b)

    def dget(self, val, key):
        """value term or None when the key is known to be absent"""
        if val.op == "dict":
            allc = True
            for k, v in val.args:
                if k is key:
                    return v
                if k.op != "const":
                    allc = False
            if allc and key.op == "const":
                return None
            return mk("sub", val, key)
        if val.op == "dset":
            b, k, v = val.args
            if k is key:
                return v
            if k.op == "const" and key.op == "const":
                return self.dget(b, key)
            return mk("sub", val, key)
        if val.op == "dcopy":
            return mk("sub", val.args[0], key)
        if val.op == "dpop":
            b, k = val.args
            if k is key:
                return None
            if k.op == "const" and key.op == "const":
                return self.dget(b, key)
            return mk("sub", val, key)
        if val.op == "dmerge":
            a, b = val.args
            c = self.dcontains(b, key)
            if c is TRUE:
                return self.dget(b, key)
            if c is FALSE:
                return self.dget(a, key)
            x = self.dget(a, key)
            y = self.dget(b, key)
            if x is None:
                return y
            if y is None:
                return x
            return ite(c if c is not None else cmp_("in", key, b), y, x)
        if val.op == "ite":
            a = self.dget(val.args[1], key)
            b = self.dget(val.args[2], key)
            if a is None:
                return b
            if b is None:
                return a
            return ite(val.args[0], a, b)
        return mk("sub", val, key)

    def dcontains(self, val, key):
        val = self.val(val)
        if val.op == "dict":
            allc = True
            for k, v in val.args:
                if k is key:
                    return TRUE
                if k.op != "const":
                    allc = False
            if allc and key.op == "const":
                return FALSE
            return None
        if val.op == "dset":
            if val.args[1] is key:
                return TRUE
            if val.args[1].op == "const" and key.op == "const":
                return self.dcontains(val.args[0], key)
            return None
        if val.op == "dpop":
            if val.args[1] is key:
                return FALSE
            if val.args[1].op == "const" and key.op == "const":
                return self.dcontains(val.args[0], key)
            return None
        if val.op == "dcopy":
            return cmp_("in", key, val.args[0])
        if val.op == "dmerge":
            a = self.dcontains(val.args[0], key)
            b = self.dcontains(val.args[1], key)
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
            return None
        if val.op == "ite":
            a = self.dcontains(val.args[1], key)
            b = self.dcontains(val.args[2], key)
            if a is not None and b is not None:
                return ite(val.args[0], a, b)
            return None
        return None

    def e_Subscript(self, e):
        base = self.eval(e.value)
        idx = self.eval_index(e.slice)
        if isinstance(e.ctx, ast.Load):
            self.none_use(base, e, "subscript")
        return self.subscript(base, idx, e)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.eval(x) if x is not None else NONE
                                 for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.eval_index(x) for x in s.elts])
        return self.eval(s)

    def subscript(self, base, idx, node):
        base = self.resolve(base)
        if base.op == "attr":
            for name, i, v in self.item_stubs:
                if base.args[1] == name and i in (None, idx):
                    return v
        if base.op == "ref":
            v = self.val(base)
            if v is base:
                cls = self.cls_of(base)
                if cls is not None:
                    hit = self.p.find(cls, "__getitem__")
                    if hit and hit[0] == "methods":
                        return self.call_func(hit[1], [base, idx], [], node)
                return mk("sub", base, idx)
            if self.kind(base) == "dict":
                r = self.dget(v, idx)
                if r is None:
                    self.ev("undef", node, what="key", name=repr(idx),
                            must=True, cond=())
                    if self.strict:
                        raise Dead()
                    return mk("opaque", "nokey", idx)
                return self.resolve(r)
            base = v
        if base.op == "inst" and base.args[0] == "view" and \
                idx.op == "slice":
            return inst("Projection", base.args[1], base.args[2])
        if base.op == "ite":
            c, a, b = base.args
            if any(x.op in ("tuple", "list", "ref")
                   for x in ite_leaves(base)):
                return self.branch(
                    c, lambda: self.subscript(a, idx, node),
                    lambda: self.subscript(b, idx, node))
        if self.convert and factor(base) and factor(base).args[0].op == \
                "const":
            q = factor(base)
            return self.binop(base.args[0], *[
                y if y is q else self.subscript(y, idx, node)
                for y in base.args[1:]])
        if base.op == "vec" and idx.op == "const" and \
                isinstance(idx.args[0], int) and \
                -len(base.args) <= idx.args[0] < len(base.args):
            return base.args[idx.args[0]]
        if base.op == "qty" and base.args[0].op == "vec" and \
                idx.op == "const" and isinstance(idx.args[0], int):
            v = base.args[0].args
            if -len(v) <= idx.args[0] < len(v):
                return mk("qty", v[idx.args[0]], base.args[1])
        if base.op == "qty" and base.args[0].op == "const" and \
                idx.op == "const":
            raise Dead()            # a scalar does not support indexing
        if base.op in ("tuple", "list"):
            if idx.op == "const" and isinstance(idx.args[0], int) and \
                    not any(x.op == "star" for x in base.args):
                i = idx.args[0]
                if -len(base.args) <= i < len(base.args):
                    return self.resolve(base.args[i])
            if idx.op == "slice" and all(
                    x.op == "const" for x in idx.args):
                try:
                    sl = slice(*[x.args[0] for x in idx.args])
                    return mk(base.op, *base.args[sl])
                except Exception:
                    pass
        if base.op == "dict":
            r = self.dget(base, idx)
            if r is not None:
                return r
        if base.op == "bin" and base.args[0] == "+" and idx.op == "const":
            pass
        return mk("sub", base, self.snap(idx))

    # ------------------------------------------------------ comprehensions
    def _comp(self, e, elt_fn):
        """returns list of element terms if fully unrolled, else None and a
        summary term"""
        items = []
        summary = []

        def rec(i):
            if i == len(e.generators):
                v = elt_fn()
                items.append(v)
                return
            g = e.generators[i]
            it = self.eval(g.iter)
            seq = self.iter_items(it)
            known = seq is not None and len(seq) <= UNROLL
            if known:
                tag = self._alloc_tag
                for j, x in enumerate(seq):
                    self._alloc_tag = tag + ("%d~" % j if len(seq) > 1
                                             else "")
                    self.assign(g.target, x, g.target)
                    ok = True
                    for cnd in g.ifs:
                        c = self.truthy(self.eval(cnd))
                        d = decide(c, self.st.facts)
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            summary.append(c)
                    if ok:
                        rec(i + 1)
                self._alloc_tag = tag
            else:
                s = self.snap(it)
                self.assign(g.target, self.elem_of(s, self.site(g.target)),
                            g.target)
                for cnd in g.ifs:
                    summary.append(self.truthy(self.eval(cnd)))
                summary.append(s)
                rec(i + 1)
        # comprehension scope: targets must not leak
        saved = dict(self.st.frames[-1])
        rec(0)
        fr = self.st.frames[-1]
        tg = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    tg.add(n.id)
        for n in tg:
            if n in saved:
                fr[n] = saved[n]
            else:
                fr.pop(n, None)
        return items, summary

    def e_ListComp(self, e):
        items, summ = self._comp(e, lambda: self.eval(e.elt))
        if not summ:
            return self.new_list(e, items)
        r = self.alloc("list", e)
        self.setval(r, mk("comp", tuple(self.snap(x) for x in items),
                          tuple(summ)))
        return r

    def e_GeneratorExp(self, e):
        items, summ = self._comp(e, lambda: self.eval(e.elt))
        if not summ:
            return mk("tuple", *items)
        return mk("comp", tuple(self.snap(x) for x in items), tuple(summ))

    e_SetComp = e_GeneratorExp

    def e_DictComp(self, e):
        items, summ = self._comp(
            e, lambda: mk("tuple", self.eval(e.key), self.eval(e.value)))
        if not summ:
            val = mk("dict")
            for it in items:
                val = self.dset(val, it.args[0], it.args[1])
            return self.new_dict(e, val)
        # {k: v for k, v in d.items() [if ...]} is a filtered shallow copy
        src = summ[-1] if len(summ) == 1 else mk(
            "comp", tuple(self.snap(x) for x in items), tuple(summ))
        for s in summ:
            if s.op == "call" and s.args[0].op == "attr" and \
                    s.args[0].args[1] == "items":
                src = s.args[0].args[0]
        if len(summ) == 1 and src is not summ[-1]:
            return self.new_dict(e, mk("dcopy", src))
        return self.new_dict(e, mk("dfilter", src,
                                   tuple(self.snap(x) for x in items),
                                   tuple(summ)))

    def elem_of(self, it, site):
        """Generic element of an iterable term."""
        if it.op == "call" and it.args[0].op == "ext":
            n = it.args[0].args[0]
            a = it.args[1]
            if n == "builtins.enumerate" and a:
                return mk("tuple", mk("index", site, self.snap(a[0])),
                          self.elem_of(self.snap(a[0]), site))
            if n == "builtins.zip":
                return mk("tuple", *[self.elem_of(self.snap(x), site)
                                     for x in a])
            if n in ("builtins.range", "numpy.arange", "builtins.xrange"):
                return mk("index", site, it)
            if n == "itertools.product":
                return mk("tuple", *[self.elem_of(self.snap(x),
                                                  site + "." + str(i))
                                     for i, x in enumerate(a)])
            if n in ("builtins.reversed", "builtins.list", "builtins.tuple",
                     "builtins.iter", "builtins.sorted") and len(a) == 1:
                return self.elem_of(self.snap(a[0]), site)
        if it.op == "comp" and len(it.args[0]) == 1:
            return it.args[0][0]
        if it.op in ("tuple", "list") and it.args:
            out = it.args[0]
            for i, x in enumerate(it.args[1:]):
                out = ite(mk("choice", site, i), out, x)
            return out
        if it.op == "call" and it.args[0].op == "attr" and \
                it.args[0].args[1] == "items" and not it.args[1]:
            d = it.args[0].args[0]
            k = mk("elem", d, site)
            return mk("tuple", k, mk("sub", d, k))
        return mk("elem", it, site)

    def iter_items(self, it):
        """List of element terms when the iterable is statically known."""
        it = self.resolve(it)
        if it.op == "ref":
            v = self.val(it)
            if self.kind(it) == "dict":
                if v.op == "dict" and all(k.op == "const"
                                          for k, _ in v.args):
                    return [k for k, _ in v.args]
                return None
            it = v
        if it.op in ("tuple", "list", "set"):
            if any(x.op == "star" for x in it.args):
                return None
            return list(it.args)
        if it.op == "const" and isinstance(it.args[0], str):
            if len(it.args[0]) <= UNROLL:
                return [const(c) for c in it.args[0]]
        if it.op == "call" and it.args[0].op == "ext":
            n = it.args[0].args[0]
            a = it.args[1]
            if n == "builtins.range" and all(
                    x.op == "const" and isinstance(x.args[0], int)
                    for x in a):
                r = range(*[x.args[0] for x in a])
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
                return None
            if n == "builtins.zip":
                seqs = [self.iter_items(x) for x in a]
                if seqs and all(s is not None for s in seqs):
                    return [mk("tuple", *xs) for xs in zip(*seqs)]
                return None
            if n == "builtins.enumerate" and len(a) == 1:
                s = self.iter_items(a[0])
                if s is not None:
                    return [mk("tuple", const(i), x)
                            for i, x in enumerate(s)]
            if n in ("builtins.reversed",) and len(a) == 1:
                s = self.iter_items(a[0])
                if s is not None:
                    return s[::-1]
            if n in ("builtins.list", "builtins.tuple", "builtins.iter",
                     "builtins.sorted", "builtins.set") and len(a) == 1:
                return self.iter_items(a[0])
            if n == "itertools.product" and not it.args[2]:
                seqs = [self.iter_items(x) for x in a]
                if seqs and all(s is not None for s in seqs):
                    import itertools
                    out = [mk("tuple", *xs)
                           for xs in itertools.product(*seqs)]
                    if len(out) <= UNROLL:
                        return out
                return None
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.eval(e.args[0])
                o = self.eval(e.args[1]) if len(e.args) > 1 else NONE
                return mk("super", c.args[0] if c.op == "class" else "?", o)
            f = self.fstack[-1]["func"]
            fr = self.st.frames[-1]
            o = fr.get(f.params[0]) if f.params else NONE
            return mk("super", f.cls.qual if f.cls else "?", o)
        # method call on a container keeps its receiver
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.snap(self.eval(a.value))
                if v.op in ("tuple", "list") and not any(
                        x.op == "star" for x in v.args):
                    args += list(v.args)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(a))
        kwargs = []
        for k in e.keywords:
            kwargs.append((k.arg, self.eval(k.value)))
        return self.call(fn, args, kwargs, e)

    def call(self, fn, args, kwargs, node):
        fn = self.resolve(fn)
        if fn.op == "ite":
            c, a, b = fn.args
            return self.branch(c, lambda: self.call(a, args, kwargs, node),
                               lambda: self.call(b, args, kwargs, node))
        if fn.op == "func":
            f = self.p.funcs.get(fn.args[0])
            if f is not None:
                return self.call_func(f, args, kwargs, node)
        if fn.op == "bound":
            f = self.p.funcs.get(fn.args[1])
            if f is not None:
                return self.call_func(f, [fn.args[0]] + args, kwargs, node)
        if fn.op == "closure" and fn in self.closures:
            f, encl = self.closures[fn]
            return self.call_func(f, args, kwargs, node, encl=encl)
        if fn.op == "partial":
            return self.call(fn.args[0], list(fn.args[1]) + args,
                             [(k if k != "**" else None, v)
                              for k, v in fn.args[2]] + kwargs, node)
        if fn.op == "class":
            cls = self.p.classes.get(fn.args[0])
            if cls is not None:
                return self.construct(cls, args, kwargs, node)
        if fn.op == "ref" and self.cls_of(fn) is not None:
            hit = self.p.find(self.cls_of(fn), "__call__")
            if hit and hit[0] == "methods":
                return self.call_func(hit[1], [fn] + args, kwargs, node)
        if fn.op == "attr" and fn.args[0].op == "super":
            if fn.args[1] == "__init__":
                # the library base class sees the arguments and the object
                o = self.resolve(fn.args[0].args[1])
                h = self.st.heap.get(o.args[0]) if o.op == "ref" else None
                if h is not None and (args or kwargs or any(
                        "." in str(b) for k in self.p.mro(self.cls_of(o))
                        for b in k.ext_bases)):
                    t = mk("call", mk("class", str(fn.args[0].args[0])),
                           tuple(self.snap(a) for a in args),
                           tuple(sorted(((k or "**", self.snap(v))
                                         for k, v in kwargs),
                                        key=lambda kv: (kv[0], kv[1].id))))
                    self.ev("call", node, name="super.__init__",
                            method=None, recv=None, args=tuple(
                                list(args) + [self.snap(v) for k, v in
                                              sorted(h.items())]),
                            kwargs=tuple(kwargs), result=t, fn=fn)
                    h["__ctor__"] = t
                return NONE
        if fn.op == "ext":
            return self.call_ext(fn.args[0], args, kwargs, node)
        if fn.op == "attr":
            return self.call_method(fn.args[0], fn.args[1], args, kwargs,
                                    node)
        return self.opaque_call(fn, args, kwargs, node)

    def construct(self, cls, args, kwargs, node):
        self.ev("construct", node, cls=cls.name, args=tuple(args),
                kwargs=tuple(kwargs))
        if cls.name in self.opaque_classes:
            return self.opaque_call(mk("class", cls.qual), args, kwargs,
                                    node)
        self.p.mro(cls)
        hit = self.p.find(cls, "__init__")
        ref = self.alloc("obj:" + cls.name, node, cls)
        if hit and hit[0] == "methods":
            self.call_func(hit[1], [ref] + args, kwargs, node)
        elif cls.ext_bases:
            self.st.heap[ref.args[0]]["__ctor__"] = mk(
                "call", mk("class", cls.qual),
                tuple(self.snap(a) for a in args),
                tuple(sorted((k or "**", self.snap(v))
                             for k, v in kwargs)))
        return ref

    def bind(self, f, args, kwargs, node):
        """Bind call arguments to parameters; returns locals dict."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        pos = list(args)
        extra = []
        i = 0
        while i < len(pos):
            t = pos[i]
            if t.op == "star":
                # unknown number: feed remaining positional names
                rest = [n for n in names if n not in loc]
                for j, n in enumerate(rest):
                    loc[n] = mk("sub", t.args[0], const(j))
                if not rest:
                    extra.append(t)
                i += 1
                continue
            k = len(loc)
            free = [n for n in names if n not in loc]
            if free:
                loc[free[0]] = t
            else:
                extra.append(t)
            i += 1
        if a.vararg:
            loc[a.vararg.arg] = mk("tuple", *extra)
        elif extra and not any(x.op == "star" for x in extra):
            self.ev("bad_call", node, callee=f.qual,
                    why="too many positional arguments")
        kwonly = [x.arg for x in a.kwonlyargs]
        allnames = names + kwonly
        posonly = set(x.arg for x in a.posonlyargs)
        kwdict = mk("dict")
        dstars = []
        for k, v in kwargs:
            if k is None:
                vv = self.val(self.resolve(v))
                if vv.op == "dict" and all(x.op == "const"
                                           for x, _ in vv.args):
                    for kk, xx in vv.args:
                        n = kk.args[0]
                        if n in allnames:
                            if n in loc:
                                self.ev("bad_call", node, callee=f.qual,
                                        why="duplicate argument %s" % n)
                            loc[n] = xx
                        elif a.kwarg:
                            kwdict = self.dset(kwdict, kk, xx)
                        else:
                            self.ev("bad_call", node, callee=f.qual,
                                    why="unexpected keyword %s" % n)
                else:
                    dstars.append(vv)
                continue
            if k in allnames and k not in posonly:
                if k in loc:
                    self.ev("bad_call", node, callee=f.qual,
                            why="duplicate argument %s" % k)
                loc[k] = v
            elif a.kwarg:
                kwdict = self.dset(kwdict, const(k), v)
            else:
                self.ev("bad_call", node, callee=f.qual,
                        why="unexpected keyword %s" % k)
        defaults = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            defaults[n] = d
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for X in dstars:
            for n in allnames:
                if n in loc:
                    c = self.dcontains(X, const(n))
                    if c is TRUE:
                        self.ev("bad_call", node, callee=f.qual,
                                why="duplicate argument %s" % n)
                    continue
                c = self.dcontains(X, const(n))
                dflt = self.default(f, n, defaults) if n in defaults \
                    else None
                if c is FALSE:
                    continue
                if c is TRUE:
                    loc[n] = self.dget(X, const(n))
                elif dflt is None:
                    loc[n] = self.dget(X, const(n)) or \
                        mk("sub", X, const(n))
                elif self._filtered_has(X, n) is False:
                    continue
                else:
                    loc[n] = self.kwget(X, n, dflt)
            if a.kwarg:
                kwdict = self.dmerge(kwdict, self.dminus(X, allnames))
        self.left = left = []
        for n in allnames:
            if n not in loc:
                if n in defaults:
                    loc[n] = self.default(f, n, defaults)
                    left.append(n)
                else:
                    self.ev("bad_call", node, callee=f.qual,
                            why="missing argument %s" % n)
                    loc[n] = mk("opaque", "missing", n)
        if a.kwarg:
            # the callee's own dict
            key = "dict@kw:%s%s#%s" % (self._alloc_tag, f.qual, "|".join(
                "%s:%s" % (g.qual, getattr(n, "lineno", 0))
                for g, n in self.callstack[-3:]))
            r = mk("ref", key)
            self.st.heap[key] = {"__val__": kwdict}
            loc[a.kwarg.arg] = r
        return loc

    def dminus(self, X, names):
        """X without the keys ``names``"""
        X = self.val(X)
        names = tuple(sorted(set(names)))
        if X.op == "dict":
            return mk("dict", *[(k, v) for k, v in X.args if not (
                k.op == "const" and k.args[0] in names)])
        if X.op == "dset" and X.args[1].op == "const":
            b = self.dminus(X.args[0], names)
            if X.args[1].args[0] in names:
                return b
            return self.dset(b, X.args[1], X.args[2])
        if X.op == "dpop" and X.args[1].op == "const":
            if X.args[1].args[0] in names:
                return self.dminus(X.args[0], names)
            return mk("dpop", self.dminus(X.args[0], names), X.args[1])
        if X.op == "dcopy":
            return self.dminus(X.args[0], names)
        if X.op == "dminus":
            return mk("dminus", X.args[0],
                      tuple(sorted(set(X.args[1]) | set(names))))
        if X.op == "ite":
            return ite(X.args[0], self.dminus(X.args[1], names),
                       self.dminus(X.args[2], names))
        if X.op == "dmerge":
            return self.dmerge(self.dminus(X.args[0], names),
                               self.dminus(X.args[1], names))
        return mk("dminus", X, names)

    def _filtered_has(self, X, n):
        return None

    def kwget(self, X, n, dflt):
        if X.op == "ite":
            return ite(X.args[0], self.kwget(self.val(X.args[1]), n, dflt),
                       self.kwget(self.val(X.args[2]), n, dflt))
        c = self.dcontains(X, const(n))
        if c is TRUE:
            return self.dget(X, const(n))
        if c is FALSE:
            return dflt
        if X.op == "dcopy":
            return self.kwget(X.args[0], n, dflt)
        if X.op == "dset" and X.args[1].op == "const":
            return self.kwget(X.args[0], n, dflt)
        if X.op == "dpop" and X.args[1].op == "const":
            return self.kwget(X.args[0], n, dflt)
        if X.op == "dminus":
            if n in X.args[1]:
                return dflt
            return self.kwget(X.args[0], n, dflt)
        if X.op == "dmerge":
            return self.kwget(X.args[1], n, self.kwget(X.args[0], n, dflt))
        return mk("get", X, n, self.snap(dflt))

    def default(self, f, n, defaults):
        key = ("default", f.qual, n)
        expr = defaults[n]
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)) or (
                isinstance(expr, ast.Call) and isinstance(
                    expr.func, ast.Name) and expr.func.id in ("dict",
                                                              "list",
                                                              "set")):
            kind = "list" if isinstance(expr, ast.List) or (
                isinstance(expr, ast.Call) and expr.func.id == "list") \
                else "dict"
            hk = "%s@default:%s(%s)" % (kind, f.qual, n)
            r = mk("ref", hk)
            if hk not in self.st.heap:
                if hk in self.default_refs:
                    self.st.heap[hk] = dict(self.default_refs[hk])
                else:
                    v = self.eval_in_module(f.module, expr)
                    self._persist(r, {"__val__": self.val(v)})
            return r
        if key not in self.gcache:
            self.gcache[key] = self.eval_in_module(f.module, expr)
        return self.gcache[key]

    def call_func(self, f, args, kwargs, node, encl=None):
        self.functions_seen.add(f.qual)
        call = self.ev("repocall", node, callee=f, args=tuple(args),
                       kwargs=tuple(kwargs))
        depth = sum(1 for g, _ in self.callstack if g is f or
                    g.qual == f.qual)
        if f.name in self.no_inline or f.qual in self.no_inline or \
                len(self.callstack) > MAX_DEPTH or depth > 1:
            return self.opaque_call(mk("func", f.qual), args, kwargs, node,
                                    ev=False)
        if f.name in self.stubs:
            loc = self.bind(f, args, kwargs, node)
            self.stubbed.append((f.name, tuple(
                self.snap(loc[n]) for n in f.params if n in loc)))
            return self.stubs[f.name]
        self.calls_inlined += 1
        loc = self.bind(f, args, kwargs, node)
        if call is not None:
            call.d["bound"] = dict(loc)
            call.d["left"] = tuple(self.left)
            if self.fstack and any(n in self.fstack[-1]["func"].params
                                   for n in self.left):
                call.d["heap"] = {k: dict(v)
                                  for k, v in self.st.heap.items()}
                call.d["caller"] = dict(self.st.frames[-1])
        return self.run_body(f, loc, node, encl)

    def run_body(self, f, loc, node, encl=None):
        info = {"func": f, "returns": [], "loops": [], "encl": encl,
                "yields": []}
        self.st.frames.append(loc)
        self.fstack.append(info)
        self.callstack.append((f, node))
        ctxs = self.ctxs
        tag = self._alloc_tag
        depth = len(self.st.frames)
        entry_path = self.st.path
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                self.st.frames.pop()
                return v
            try:
                self.exec_block(f.node.body)
            except Dead:
                self.st = None
            rets = info["returns"]
            if self.st is not None:
                self.st.frames[-1]["__ret__"] = NONE
                rets.append(self.st)
            final = self.join_many(rets, f.qual)
            if final is None:
                raise Dead()
            self.st = final
            self.st.path = entry_path if self.st.path[:len(entry_path)] == \
                entry_path else self.st.path
            fr = self.st.frames.pop()
            v = fr.get("__ret__", NONE)
            v = self.resolve(v)
            if f.is_gen:
                ys = info["yields"]
                y = ys[0] if ys else NONE
                for i, x in enumerate(ys[1:]):
                    y = ite(mk("choice", f.qual, i), y, x)
                return mk("comp", (self.snap(y),),
                          (mk("opaque", "gen", f.qual),))
            return v
        finally:
            self.fstack.pop()
            self.callstack.pop()
            self.ctxs = ctxs
            self._alloc_tag = tag

    # ------------------------------------------------------------- builtins
    def call_ext(self, name, args, kwargs, node):
        t = self.canon_ext(name)
        name = t.args[0]
        kw = dict((k, v) for k, v in kwargs if k is not None)
        short = name.split(".")[-1]
        if name in self.ext_stubs:
            return self.ext_stubs[name]
        if name.startswith("builtins."):
            r = self.builtin(short, args, kwargs, kw, node)
            if r is not None:
                return r
        if name in ("copy.copy", "copy.deepcopy") and args:
            return self.do_copy(self.resolve(args[0]),
                                name == "copy.deepcopy", node)
        if name == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]),
                      tuple((k or "**", v) for k, v in kwargs))
        if name == "operator.attrgetter":
            pass
        if self.convert and len(args) == 1 and not kw and name in LINEAR:
            x = self.resolve(args[0])
            q = factor(x)
            if q is not None and q.args[0].op == "const" and \
                    q.args[0].args[0] > 0:
                return self.binop(x.args[0], *[
                    y if y is q else self.call_ext(name, [y], [], node)
                    for y in x.args[1:]])
        if name == "numpy.ndim" and len(args) == 1 and not kw:
            x = self.resolve(args[0])
            x = x.args[0] if x.op == "qty" else x
            if x.op == "const":
                return const(0)
            if x.op == "vec":
                return const(1)
        if name == "astropy.units.Unit" and len(args) == 1 and not kw:
            v = self.resolve(args[0])
            if v.op == "unit":
                return v
            if v.op == "call" and v.args[0].op == "attr" and \
                    v.args[0].args[1] == "to_string" and \
                    v.args[0].args[0].op == "unit":
                return v.args[0].args[0]
        if name == "numpy.sqrt" and len(args) == 1 and not kw:
            v = self.resolve(args[0])
            if v.op == "qty" and v.args[1].endswith("^2") and \
                    v.args[0].op == "const":
                return qty(v.args[0].args[0] ** 0.5, v.args[1][:-2])
        if name == "astropy.units.Quantity" and len(args) == 1 and not kw:
            v = self.snap(args[0])
            if v.op in ("list", "tuple") and v.args and all(
                    x.op == "qty" and x.args[1] == v.args[0].args[1] and
                    x.args[0].op == "const" for x in v.args):
                return mk("qty", mk("vec", *[x.args[0] for x in v.args]),
                          v.args[0].args[1])
        if self.strict and name.startswith("numpy."):
            for x in args:
                x = self.resolve(x)
                if x.op == "inst" and x.args[0] not in ARRAYS:
                    raise Dead()
        if name.startswith("numpy.") and len(args) == 1 and not kw:
            x = self.resolve(args[0])
            if x.op == "qty" and x.args[0].op == "vec" and short in (
                    "min", "max", "nanmin", "nanmax", "floor", "ceil",
                    "round", "abs") or x.op == "qty" and short in (
                        "abs", "absolute", "fabs"):
                r = fold_num(short, x.args[0])
                if r is not None:
                    return mk("qty", r, x.args[1])
            r = fold_num(short, x) if x.op == "vec" or self.strict or \
                self.convert and short in ("abs", "absolute") else None
            if r is not None:
                return r
            if x.op == "const" and isinstance(x.args[0], bool) and \
                    short in ("any", "all"):
                return x
            if x.op == "const" and isinstance(x.args[0], float) and \
                    x.args[0] in (INF, -INF) and short in (
                        "floor", "ceil", "round", "min", "max", "nanmin",
                        "nanmax", "asarray", "array", "atleast_1d"):
                return x
            if x.op == "const" and isinstance(x.args[0], (int, float)) and \
                    short in ("min", "max", "nanmin", "nanmax"):
                return x
            if x.op == "qty" and short in ("min", "max", "nanmin", "nanmax",
                                           "array", "asarray"):
                return x
        if name.startswith("numpy.") and len(name.split(".")) == 2:
            if short in _NP_BIN and len(args) == 2 and not kw:
                return self.binop(_NP_BIN[short], args[0], args[1], node)
            if short in _NP_CMP and len(args) == 2 and not kw:
                return self.compare(_NP_CMP[short], args[0], args[1], node)
            if short == "negative" and len(args) == 1:
                return self.unop("-", args[0])
            if short == "square" and len(args) == 1:
                return self.binop("**", args[0], const(2), node)
            if short in ("logical_not", "invert") and len(args) == 1:
                return self.unop("~", args[0])
        # higher-order helpers: analyse the function on a generic element
        if name in ("builtins.map", "itertools.starmap") and len(args) >= 2:
            return self.do_map(args[0], args[1:], node,
                               star=name.endswith("starmap"))
        if name in ("numpy.apply_along_axis",) and len(args) >= 3:
            el = mk("elem", self.snap(args[2]), self.site(node))
            r = self.call(args[0], [el] + args[3:], kwargs, node)
            return mk("comp", (self.snap(r),), (self.snap(args[2]),))
        if name == "numpy.pad":
            for a in args[2:3] + [kw[k] for k in ("mode",) if k in kw]:
                if a.op in ("func", "closure"):
                    pass
        return self.opaque_call(t, args, kwargs, node)

    def do_map(self, f, seqs, node, star=False):
        known = [self.iter_items(s) for s in seqs]
        if all(k is not None for k in known):
            out = []
            tag = self._alloc_tag
            for j, xs in enumerate(zip(*known)):
                self._alloc_tag = tag + "%d~" % j
                xs = list(xs)
                if star:
                    v = self.snap(xs[0])
                    xs = list(v.args) if v.op in ("tuple", "list") else \
                        [mk("star", v)]
                out.append(self.call(f, xs, [], node))
            self._alloc_tag = tag
            return self.new_list(node, out)
        ss = [self.snap(s) for s in seqs]
        els = [self.elem_of(s, self.site(node)) for s in ss]
        if star and len(els) == 1:
            els = list(els[0].args) if els[0].op == "tuple" else \
                [mk("star", els[0])]
        r = self.call(f, els, [], node)
        return mk("comp", (self.snap(r),), tuple(ss))

    def do_copy(self, x, deep, node):
        if x.op == "ref":
            cls = self.cls_of(x)
            if cls is not None:
                r = self.alloc("obj:" + cls.name + ":copy", node, cls)
                h = self.st.heap[x.args[0]]
                new = {}
                for k, v in h.items():
                    if deep and isinstance(v, T):
                        new[k] = self._deepwrap(v)
                    else:
                        new[k] = v
                self.st.heap[r.args[0]] = new
                self.ev("copyobj", node, src=x, dst=r, deep=deep)
                return r
            v = self.val(x)
            if v is not x:
                k = self.kind(x)
                r = self.alloc(k, node)
                if deep:
                    v = self._deepwrap(v)
                self.setval(r, v)
                return r
        if x.op in ("const", "inst"):
            return x
        if x.op == "tuple" and not deep:
            return x
        if x.op in ("tuple", "list") and any(y.op == "inst"
                                             for y in x.args):
            return x
        if not deep:
            # shallow copy of an opaque value
            return mk("call", ext("copy.copy"), (x,), ())
        return mk("call", ext("copy.deepcopy"), (self.snap(x),), ())

    def _deepwrap(self, v):
        if v.op in ("const", "undef", "class", "func"):
            return v
        if v.op == "ite":
            return ite(v.args[0], self._deepwrap(v.args[1]),
                       self._deepwrap(v.args[2]))
        if v.op == "dict":
            return mk("dict", *[(k, self._deepwrap(x)) for k, x in v.args])
        if v.op in ("list", "tuple"):
            return mk(v.op, *[self._deepwrap(x) for x in v.args])
        return mk("call", ext("copy.deepcopy"), (self.snap(v),), ())

    def builtin(self, n, args, kwargs, kw, node):
        a0 = self.resolve(args[0]) if args else None
        if n == "hasattr" and len(args) == 2 and args[1].op == "const":
            return self.hasattr(a0, args[1].args[0], node)
        if n == "getattr" and len(args) >= 2 and args[1].op == "const" and \
                isinstance(args[1].args[0], str):
            nm = args[1].args[0]
            if len(args) == 2:
                return self.getattr(a0, nm, node)
            has = self.hasattr(a0, nm, node)
            return self.branch(has, lambda: self.getattr(a0, nm, node),
                               lambda: args[2])
        if n == "setattr" and len(args) == 3:
            if args[1].op == "const":
                self.setattr(a0, args[1].args[0], args[2], node)
            else:
                if a0.op == "ref":
                    self.st.heap.setdefault(a0.args[0], {})["__unknown__"] \
                        = TRUE
                self.ev("dynstore", node, obj=a0, name=args[1],
                        value=args[2])
            return NONE
        if n == "delattr" and len(args) == 2 and args[1].op == "const":
            self.del_attr(a0, args[1].args[0], node)
            return NONE
        if n == "isinstance" and len(args) == 2:
            return self.do_isinstance(a0, args[1], node)
        if n == "type" and len(args) == 1 and a0.op == "ref" and \
                self.cls_of(a0):
            return mk("class", self.cls_of(a0).qual)
        if n == "len" and len(args) == 1:
            v = self.snap(a0)
            if v.op in ("tuple", "list", "dict") and not any(
                    isinstance(x, T) and x.op == "star" for x in v.args):
                return const(len(v.args))
            if v.op == "const" and isinstance(v.args[0], str):
                return const(len(v.args[0]))
            if v.op == "qty":
                v = v.args[0]
            if v.op == "vec":
                return const(len(v.args))
            return mk("call", ext("builtins.len"), (v,), ())
        if n == "dict":
            val = mk("dict")
            if args:
                x = self.val(a0)
                items = self.iter_items(args[0]) if a0.op != "ref" or \
                    self.kind(a0) != "dict" else None
                if items is not None and all(
                        i.op == "tuple" and len(i.args) == 2
                        for i in items):
                    for i in items:
                        val = self.dset(val, i.args[0], i.args[1])
                else:
                    val = self.dmerge(val, x)
            for k, v in kwargs:
                if k is None:
                    val = self.dmerge(val, self.val(v))
                else:
                    val = self.dset(val, const(k), v)
            return self.new_dict(node, val)
        if n in ("list", "tuple") and len(args) <= 1:
            if not args:
                return self.new_list(node, []) if n == "list" else \
                    mk("tuple")
            items = self.iter_items(a0)
            if items is not None:
                return self.new_list(node, items) if n == "list" else \
                    mk("tuple", *items)
            s = self.snap(a0)
            if s.op == "comp":
                if n == "tuple":
                    return s
                r = self.alloc("list", node)
                self.setval(r, s)
                return r
            if n == "list":
                r = self.alloc("list", node)
                self.setval(r, mk("call", ext("builtins.list"), (s,), ()))
                return r
            return mk("call", ext("builtins." + n), (s,), ())
        if n in ("float", "int", "str", "bool", "abs", "round") and \
                len(args) == 1 and a0.op == "const":
            try:
                return const({"float": float, "int": int, "str": str,
                              "bool": bool, "abs": abs,
                              "round": round}[n](a0.args[0]))
            except Exception:
                return None
        if n == "abs" and len(args) == 1:
            return self.opaque_call(ext("numpy.abs"), args, kwargs, node)
        if n == "pow" and len(args) == 2:
            return self.binop("**", args[0], args[1], node)
        if n == "print":
            self.ev("print", node, args=tuple(args))
            return NONE
        if n == "vars" and len(args) == 1:
            return mk("attr", a0, "__dict__")
        if n in ("all", "any") and len(args) == 1:
            items = self.iter_items(a0)
            if items is not None:
                cs = [self.truthy(i) for i in items]
                return and_(*cs) if n == "all" else or_(*cs)
        if n in ("min", "max", "any", "all") and len(args) == 1 and \
                not kwargs:
            v = self.snap(a0)
            if v.op == "vec":
                return fold_num(n, v)
            if v.op in ("tuple", "list") and v.args and all(
                    x.op == "const" and isinstance(x.args[0], (int, float))
                    for x in v.args):
                return const({"min": min, "max": max, "any": any,
                              "all": all}[n](x.args[0] for x in v.args))
        if n in ("min", "max") and len(args) > 1 and not kwargs:
            return mk("call", ext("builtins." + n),
                      tuple(sorted((self.snap(a) for a in args),
                                   key=lambda t: t.id)), ())
        if n == "next" and args:
            return mk("elem", self.snap(a0), self.site(node))
        return None

    def do_isinstance(self, x, k, node):
        if x.op == "ite":
            c, a, b = x.args
            return ite(c, self.do_isinstance(a, k, node),
                       self.do_isinstance(b, k, node))
        ks = self.snap(k)
        if ks.op in ("tuple", "list"):
            return or_(*[self.do_isinstance(x, q, node) for q in ks.args])
        if x.op == "ref" and self.cls_of(x) is not None:
            cls = self.cls_of(x)
            if ks.op == "class":
                return const(any(c.qual == ks.args[0]
                                 for c in self.p.mro(cls)))
            self.p.mro(cls)
            if not cls.ext_bases:
                return FALSE
        if x.op == "ref" and self.kind(x) in ("list", "dict"):
            if ks.op == "ext" and ks.args[0].startswith("builtins."):
                return const(ks.args[0] == "builtins." + self.kind(x))
            return FALSE
        if x.op == "const" and ks.op == "ext" and \
                ks.args[0].startswith("builtins."):
            try:
                ty = getattr(__import__("builtins"),
                             ks.args[0].split(".")[1])
                return const(isinstance(x.args[0], ty))
            except Exception:
                pass
        if x is NONE:
            return FALSE
        if x.op == "unit" and ks.op == "ext":
            return const("Unit" in ks.args[0].split(".")[-1])
        if x.op == "const" and ks.op == "ext" and ks.args[0].split(".")[
                -1] in ("string_types", "basestring", "text_type"):
            return const(isinstance(x.args[0], str))
        if x.op == "const" and ks.op == "ext" and ks.args[0] in (
                "numbers.Number", "numbers.Real"):
            return const(isinstance(x.args[0], (int, float)))
        if x.op == "inst" and ks.op == "ext":
            return const(inst_of(x.args[0], ks.args[0]))
        if x.op == "inst" and ks.op == "class":
            return FALSE
        if ks.op == "ext" and ks.args[0].endswith(".Quantity") and \
                is_quantity(x):
            return TRUE
        if ks.op == "ext" and x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].args[0] in (
                    "numpy.logspace", "numpy.linspace", "numpy.arange",
                    "numpy.zeros", "numpy.ones", "numpy.empty"):
            if ks.args[0] == "numpy.ndarray":
                return TRUE
            if ks.args[0] in ("builtins.str", "builtins.list",
                              "builtins.tuple", "builtins.dict"):
                return FALSE
        if x.op == "qty" and ks.op == "ext":
            return const(ks.args[0].endswith(".Quantity") or
                         ks.args[0] in ("numpy.ndarray", "builtins.object"))
        if x.op == "const" and ks.op in ("class", "ext") and not \
                ks.args[0].startswith("builtins."):
            if isinstance(x.args[0], (str, bool, int, float)):
                return FALSE
        if x.op in ("tuple", "list", "dict") and ks.op in ("ext", "class"):
            return const(ks.args[0] in ("builtins." + x.op,
                                        "builtins.object"))
        if x.op in ("upd", "augupd"):
            return self.do_isinstance(
                x.args[0] if x.op == "upd" else x.args[1], k, node)
        return mk("call", ext("builtins.isinstance"), (x, ks), ())

    def del_attr(self, base, name, node):
        base = self.resolve(base)
        if base.op == "ref" and self.cls_of(base) is not None:
            h = self.st.heap.setdefault(base.args[0], {})
            self.ev("store", node, obj=base, name=name, value=UNDEF)
            h[name] = UNDEF
            return
        self.ev("mut", node, target=base, how="delattr", idx=const(name),
                value=NONE)

    # -------------------------------------------------------- method calls
    def equivalent(self, q, k, eq, node):
        """A quantity converted by a list of equivalencies that shows."""
        for e in self.iter_items(self.resolve(eq)) or ():
            e = self.resolve(e)
            if e.op != "tuple" or len(e.args) != 4:
                continue
            ks = [unit_kind(self.resolve(x)) for x in e.args[:2]]
            if None in ks:
                continue
            (a, fa), (b, fb), (x, fx), (y, fy) = map(
                size, ks + [q.args[1], k])
            if (a, b) == (x, y):
                f = e.args[2]
            elif (b, a) == (x, y):
                f, fa, fb = e.args[3], fb, fa
            else:
                continue
            v = rescaled(q.args[0], fx / fa)
            r = [self.call(f, [x], [], node)
                 for x in (v.args if v.op == "vec" else [v])]
            if not all(x.op == "const" for x in r):
                return None
            return mk("qty", rescaled(mk("vec", *r) if v.op == "vec" else
                                      r[0], fb / fy), k)
        return None

    def call_method(self, base, m, args, kwargs, node):
        base = self.resolve(base)
        if base.op == "unit" and m == "is_equivalent" and args:
            k = unit_kind(self.resolve(args[0]))
            if k is not None:
                return const(size(k)[0] == size(base.args[0])[0])
        if base.op == "vec" and not args and not kwargs:
            r = fold_num(m, base)
            if r is not None:
                return r
        if base.op == "qty" and base.args[0].op == "vec" and m in (
                "min", "max") and not args:
            return mk("qty", fold_num(m, base.args[0]), base.args[1])
        if base.op == "qty" and m in ("min", "max", "copy", "squeeze",
                                      "ravel") and not args:
            return base
        if self.convert and m == "to" and args and factor(base):
            q = factor(base)
            r = self.call_method(q, m, args, kwargs, node)
            if r.op == "qty":
                return mk("bin", base.args[0], *[
                    r if x is q else x for x in base.args[1:]])
        if self.convert and not args and not kwargs and m in (
                "min", "max", "copy", "ravel", "squeeze") and factor(base):
            q = factor(base)
            if q.args[0].op == "const" and q.args[0].args[0] > 0:
                return self.binop(base.args[0], *[
                    y if y is q else self.call_method(y, m, [], [], node)
                    for y in base.args[1:]])
        if base.op == "unit" and m == "to_string" and not args:
            return mk("call", mk("attr", base, m), (), ())
        if base.op == "qty" and m == "to" and args:
            k = unit_kind(self.resolve(args[0]))
            if k == base.args[1]:
                return base
            if k and size(k)[0] == size(base.args[1])[0]:
                return mk("qty", rescaled(base.args[0], size(
                    base.args[1])[1] / size(k)[1]), k)
            if k and "*" in base.args[1] and (len(args) > 1 or kwargs):
                # an angle times a length, angles without dimension
                x, y = base.args[1].split("*")
                if size(x)[0] != "ang":
                    x, y = y, x
                if size(x)[0] == "ang" and size(y)[0] == size(k)[0]:
                    return mk("qty", rescaled(
                        base.args[0], size(x)[1] / size("rad")[1] *
                        size(y)[1] / size(k)[1]), k)
            if k and self.convert and (len(args) > 1 or kwargs):
                r = self.equivalent(base, k, ([v for n, v in kwargs if n ==
                                              "equivalencies"] +
                                             list(args[1:2]))[0], node)
                if r is not None:
                    return r
            if self.strict and k is not None and len(args) == 1 and \
                    not kwargs:
                raise Dead()
        if base.op == "const" and isinstance(base.args[0], float) and \
                m in ("min", "max", "any", "all", "item") and not args:
            return base
        if self.strict and lacks(base, m):
            self.ev("noattr", node, base=base, name=m)
            raise Dead()
        if base.op == "inst":
            if m == "copy" and not args:
                return base
        kw = dict((k, v) for k, v in kwargs if k is not None)
        if base.op == "ref" and self.kind(base) == "dict":
            r = self.dict_method(base, m, args, kwargs, kw, node)
            if r is not None:
                return r
        if base.op == "ref" and self.kind(base) == "list":
            r = self.list_method(base, m, args, kw, node)
            if r is not None:
                return r
        if base.op == "const" and isinstance(base.args[0], str):
            sa = [self.snap(a) for a in args]
            if m == "format":
                if all(a.op == "const" for a in sa) and all(
                        v.op == "const" for v in kw.values()):
                    try:
                        return const(base.args[0].format(
                            *[a.args[0] for a in sa],
                            **{k: v.args[0] for k, v in kw.items()}))
                    except Exception:
                        pass
                bits = re.split(r"\{\d*\}", base.args[0])
                order = [int(x) for x in re.findall(r"\{(\d+)\}",
                                                    base.args[0])]
                if not kw and len(bits) == len(sa) + 1 and \
                        "{" not in "".join(bits) and \
                        order in ([], list(range(len(sa)))):
                    return self.fstring(bits, sa)
                return mk("fstr", base, *(sa + list(kw.values())))
            if m == "join" and len(sa) == 1 and sa[0].op in (
                    "list", "tuple") and sa[0].args and not all(
                        x.op == "const" for x in sa[0].args):
                return self.fstring(
                    [""] + [base.args[0]] * (len(sa[0].args) - 1) + [""],
                    sa[0].args)
            if m == "join" and len(sa) == 1 and sa[0].op in ("list",
                                                             "tuple") \
                    and all(x.op == "const" for x in sa[0].args):
                return const(base.args[0].join(
                    str(x.args[0]) for x in sa[0].args))
            if m == "split" and all(a.op == "const" for a in sa):
                return self.new_list(node, [const(x) for x in base.args[
                    0].split(*[a.args[0] for a in sa])])
            if m in ("upper", "lower", "strip", "replace", "endswith",
                     "startswith", "capitalize", "title", "casefold") and all(a.op == "const" for a in sa):
                try:
                    return const(getattr(base.args[0], m)(
                        *[a.args[0] for a in sa]))
                except Exception:
                    pass
        if m in ("map", "imap", "starmap") and len(args) >= 2 and \
                args[0].op in ("func", "closure", "bound", "partial"):
            # pool.map(f, seq)
            self.ev("call", node, name="." + m, recv=base,
                    args=tuple(args), kwargs=tuple(kwargs), result=NONE)
            return self.do_map(args[0], args[1:2], node,
                               star=(m == "starmap"))
        if m in ("pop", "get", "setdefault") and base.op not in (
                "ref",) and args and m != "pop" and False:
            pass
        if base.op == "uattr":
            pass
        # opaque dict-like: get
        if m == "get" and base.op in ("param", "sub", "get") and args and \
                args[0].op == "const":
            dflt = args[1] if len(args) > 1 else NONE
            self.ev("call", node, name=".get", recv=base, args=tuple(args),
                    kwargs=tuple(kwargs), result=NONE)
            return mk("get", base, args[0].args[0], self.snap(dflt))
        if m in _METH_FN and base.op not in ("ext", "class", "mod", "const"):
            return self.opaque_call(self.canon_ext("numpy." + m),
                                    [base] + args, kwargs, node, method=m)
        return self.opaque_call(mk("attr", base, m), args, kwargs, node)

    def dict_method(self, base, m, args, kwargs, kw, node):
        v = self.val(base)
        if m == "copy":
            return self.new_dict(node, v)
        if m == "keys" and not args:
            items = self.iter_items(base)
            if items is not None:
                return mk("tuple", *items)
            return mk("call", mk("attr", self.snap(base), m), (), ())
        if m in ("items", "values") and not args:
            if v.op == "dict" and all(k.op == "const" for k, _ in v.args):
                if m == "items":
                    return mk("tuple", *[mk("tuple", k, x)
                                         for k, x in v.args])
                return mk("tuple", *[x for _, x in v.args])
            return mk("call", mk("attr", self.snap(base), m), (), ())
        if m == "get" and args:
            dflt = args[1] if len(args) > 1 else NONE
            if args[0].op == "const":
                return self.resolve(self.kwget(v, args[0].args[0], dflt))
            return mk("opaque", "dget", v, args[0], dflt)
        if m == "pop" and args:
            self.ev("mut", node, target=base, how="pop", idx=args[0],
                    value=NONE)
            c = self.dcontains(v, args[0])
            if len(args) > 1:
                r = self.kwget(v, args[0].args[0], args[1]) \
                    if args[0].op == "const" else mk(
                        "opaque", "dget", v, args[0], args[1])
            else:
                if c is FALSE:
                    self.ev("undef", node, what="key", name=repr(args[0]),
                            must=True, cond=())
                    if self.strict:
                        raise Dead()
                r = self.dget(v, args[0])
                if r is None:
                    r = mk("opaque", "nokey", args[0])
            self.setval(base, self.dpop(v, args[0]))
            return self.resolve(r)
        if m == "update":
            self.ev("mut", node, target=base, how="update",
                    idx=NONE, value=self.snap(args[0]) if args else NONE)
            val = v
            if args:
                x = self.resolve(args[0])
                val = self.dmerge(val, self.val(x))
            for k, x in kwargs:
                if k is None:
                    val = self.dmerge(val, self.val(x))
                else:
                    val = self.dset(val, const(k), x)
            self.setval(base, val)
            return NONE
        if m == "setdefault" and args:
            self.ev("mut", node, target=base, how="setdefault", idx=args[0],
                    value=args[1] if len(args) > 1 else NONE)
            d = args[1] if len(args) > 1 else NONE
            c = self.dcontains(v, args[0])
            if c is TRUE:
                return self.dget(v, args[0])
            if c is FALSE:
                self.setval(base, self.dset(v, args[0], d))
                return d
            cc = c if c is not None else cmp_("in", args[0], v)
            r = ite(cc, self.dget(v, args[0]) or d, d)
            self.setval(base, ite(cc, v, self.dset(v, args[0], d)))
            return r
        if m == "clear":
            self.ev("mut", node, target=base, how="clear", idx=NONE,
                    value=NONE)
            self.setval(base, mk("dict"))
            return NONE
        return None

    def dpop(self, v, k):
        if v.op == "dict" and k.op == "const" and all(
                a.op == "const" for a, _ in v.args):
            return mk("dict", *[(a, b) for a, b in v.args if a is not k])
        return mk("dpop", v, k)

    def list_method(self, base, m, args, kw, node):
        v = self.val(base)
        if m == "index" and len(args) == 1 and v.op == "list" and \
                args[0].op == "const" and all(x.op == "const"
                                              for x in v.args):
            for i, x in enumerate(v.args):
                if x is args[0]:
                    return const(i)
            if self.strict:
                raise Dead()
        if m in ("append", "add") and len(args) == 1:
            self.ev("mut", node, target=base, how=m, idx=NONE,
                    value=args[0])
            if v.op == "list":
                self.setval(base, mk("list", *(list(v.args) +
                                               [self.snap(args[0])])))
            else:
                self.setval(base, mk("append", v, self.snap(args[0])))
            return NONE
        if m in ("extend",) and len(args) == 1:
            self.ev("mut", node, target=base, how=m, idx=NONE,
                    value=args[0])
            x = self.snap(args[0])
            if v.op == "list" and x.op in ("list", "tuple"):
                self.setval(base, mk("list", *(list(v.args) +
                                               list(x.args))))
            else:
                self.setval(base, mk("bin", "+", v, x))
            return NONE
        if m == "insert" and len(args) == 2:
            self.ev("mut", node, target=base, how=m, idx=args[0],
                    value=args[1])
            if v.op == "list" and args[0].op == "const" and isinstance(
                    args[0].args[0], int):
                l = list(v.args)
                l.insert(args[0].args[0], args[1])
                self.setval(base, mk("list", *l))
            else:
                self.setval(base, mk("insert", v, args[0],
                                     self.snap(args[1])))
            return NONE
        if m in ("pop",):
            self.ev("mut", node, target=base, how=m,
                    idx=args[0] if args else NONE, value=NONE)
            i = args[0] if args else const(-1)
            if v.op == "list" and i.op == "const" and v.args:
                l = list(v.args)
                try:
                    x = l.pop(i.args[0])
                    self.setval(base, mk("list", *l))
                    return x
                except Exception:
                    pass
            self.setval(base, mk("lpop", v, i))
            return mk("sub", v, i)
        if m in ("sort", "reverse", "remove", "clear"):
            self.ev("mut", node, target=base, how=m, idx=NONE, value=NONE)
            self.setval(base, mk("l" + m, v) if m != "clear" else
                        mk("list"))
            return NONE
        if m == "copy" and not args:
            r = self.alloc("list", node)
            self.setval(r, v)
            return r
        if m in ("index", "count"):
            return mk("call", mk("attr", self.snap(base), m),
                      tuple(self.snap(a) for a in args), ())
        return None

    def expand_splats(self, kwargs):
        """``**{'a': 1}`` -> ``a=1``"""
        out = []
        for k, v in kwargs:
            if k is None:
                d = self.val(self.resolve(v))
                while d.op == "dcopy":
                    d = self.val(d.args[0])
                extra = []
                while d.op == "dset" and d.args[1].op == "const" and \
                        isinstance(d.args[1].args[0], str):
                    if d.args[1].args[0] not in [x for x, _ in extra]:
                        extra.append((d.args[1].args[0], d.args[2]))
                    d = self.val(d.args[0])
                    while d.op == "dcopy":
                        d = self.val(d.args[0])
                if d.op == "dict" and all(
                        x.op == "const" and isinstance(x.args[0], str)
                        for x, _ in d.args):
                    have = [x for x, _ in extra]
                    extra += [(x.args[0], y) for x, y in d.args
                              if x.args[0] not in have]
                    out += extra
                    continue
            out.append((k, v))
        return out

    def opaque_call(self, fn, args, kwargs, node, method=None, ev=True):
        """A call into a library: an uninterpreted term + an event."""
        self.ext_calls += 1
        if any(k is None for k, _ in kwargs):
            kwargs = self.expand_splats(kwargs)
        sargs = tuple(self.snap(a) for a in args)
        items = []
        for k, v in kwargs:
            items.append((k if k is not None else "**", self.snap(v)))
        items.sort(key=lambda kv: (kv[0], kv[1].id))
        skw = tuple(items)
        recv = None
        if fn.op == "attr":
            recv = fn.args[0]
            if recv.op == "ref" and self.kind(recv) in ("list", "dict"):
                fn = mk("attr", self.snap(recv), fn.args[1])
            name = "." + fn.args[1]
        elif fn.op == "ext":
            name = fn.args[0]
        elif fn.op in ("func", "class"):
            name = fn.args[0]
        else:
            name = "?"
        if method is not None:
            recv = args[0]
        t = mk("call", fn, sargs, skw)
        if self.on_call is not None:
            self.on_call(self, name, recv, sargs, skw, node)
        self.ev("call", node, name=name, method=method, recv=recv,
                args=tuple(args), kwargs=tuple(kwargs), result=t, fn=fn)
        # in-place effects
        kw = dict((k, v) for k, v in kwargs if k is not None)
        short = name.split(".")[-1]
        if "out" not in kw and not method and name in lib.UFUNC_NIN and \
                len(args) > lib.UFUNC_NIN[name]:
            kw["out"] = args[lib.UFUNC_NIN[name]]
        if "output" in kw and name.startswith("scipy.ndimage") and \
                "out" not in kw:
            kw["out"] = kw["output"]
        for k, i in lib.OVERWRITE.items():
            if k in kw and truth(kw[k]) is not False and len(args) > i:
                o = self.resolve(args[i])
                self.ev("mut", node, target=o, how=k, idx=NONE, value=t)
                if o.op not in ("ref", "const"):
                    self.inplace(o, mk("upd", o, mk("via", fn), t))
        if short in lib.MUT_ARG_METHODS and name not in lib.MUT_FUNCS:
            i = 1 if method else 0
            if len(args) > i:
                o = self.resolve(args[i])
                self.ev("mut", node, target=o, how=short, idx=NONE, value=t)
                if o.op not in ("ref", "const"):
                    self.inplace(o, mk("upd", o, mk("via", fn), t))
        if "out" in kw and kw["out"] is not NONE:
            outs = self.resolve(kw["out"])
            for o in (outs.args if outs.op == "tuple" else (outs,)):
                self.ev("mut", node, target=o, how="out=", idx=NONE,
                        value=t)
                if o.op not in ("ref", "const"):
                    self.inplace(o, mk("upd", o, mk("via", fn), t))
        if name in lib.MUT_FUNCS and len(args) > lib.MUT_FUNCS[name]:
            o = self.resolve(args[lib.MUT_FUNCS[name]])
            self.ev("mut", node, target=o, how=short, idx=NONE, value=t)
            if o.op not in ("ref", "const"):
                self.inplace(o, mk("upd", o, mk("via", fn), t))
        if name == "numpy.nan_to_num" and len(args) > 1:
            kw.setdefault("copy", args[1])
        if name == "numpy.nan_to_num" and "copy" in kw and \
                truth(kw["copy"]) is False and args:
            o = self.resolve(args[0])
            self.ev("mut", node, target=o, how="nan_to_num(copy=False)",
                    idx=NONE, value=t)
        mname = method or (fn.args[1] if fn.op == "attr" else None)
        if mname in lib.MUT_METHODS and recv is not None and \
                recv.op not in ("ext", "mod", "class"):
            o = self.resolve(recv)
            if not (o.op == "ref" and self.cls_of(o) is not None):
                self.ev("mut", node, target=o, how="." + mname + "()",
                        idx=self.snap(args[0]) if args and not method
                        else NONE,
                        value=NONE, method=True)
                if o.op not in ("ref", "const"):
                    if mname == "pop":
                        new = mk("dpop", o, sargs[0] if sargs else NONE)
                    elif mname == "setflags":
                        new = o
                    else:
                        new = mk("upd", o, mk("via", mk(
                            "attr", NONE, mname)), mk("tuple", *sargs))
                    self.inplace(o, new)
        # a class instance handed to a library as the receiver of unknown
        # effects is left alone
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            if self.st is None:
                return
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return
        try:
            m(s)
        except Dead:
            self.st = None

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for al in s.names:
            r = self.p._mod(al.name if al.asname else
                            al.name.split(".")[0])
            self.st.frames[-1][al.asname or al.name.split(".")[0]] = \
                mk(r[0], r[1])

    def s_ImportFrom(self, s):
        f = self.fstack[-1]["func"]
        src = self.p._from(f.module, s)
        for al in s.names:
            if src in self.p.modules:
                t = self._from_lookup(self.p.lookup(src, al.name))
                if t is None:
                    t = ext("%s.%s" % (src, al.name))
            else:
                t = self.canon_ext("%s.%s" % (src, al.name))
            self.st.frames[-1][al.asname or al.name] = t

    def s_FunctionDef(self, s):
        f = self.fstack[-1]["func"]
        g = Func(f.module, s, qual=f.qual + ".<locals>." + s.name)
        self.st.frames[-1][s.name] = self._closure(g, s)

    def s_ClassDef(self, s):
        self.st.frames[-1][s.name] = mk("opaque", "localclass", s.name)

    def s_Global(self, s):
        self.fstack[-1].setdefault("globals", set()).update(s.names)

    s_Nonlocal = s_Global

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.st.frames[-1]["__ret__"] = v
        self.ev("return", s, value=v)
        self.fstack[-1]["returns"].append(self.st)
        self.st = None

    def s_Raise(self, s):
        exc = self.eval(s.exc) if s.exc is not None else NONE
        self.ev("raise", s, exc=exc)
        self.st = None

    def s_Assert(self, s):
        c = self.truthy(self.eval(s.test))
        d = decide(c, self.st.facts)
        if d is False:
            self.ev("raise", s, exc=ext("builtins.AssertionError"))
            self.st = None
        elif d is None:
            pre = self.st
            self.st = pre.copy()
            self.assume(not_(c) if c.op != "not" else c.args[0], True) \
                if c.op != "not" else self.assume(c.args[0], True)
            self.ev("raise", s, exc=ext("builtins.AssertionError"))
            self.st = pre
            if c.op == "not":
                self.assume(c.args[0], False)
            else:
                self.assume(c, True)

    def s_If(self, s):
        c = self.truthy(self.eval(s.test))

        def run(body):
            def go():
                self.exec_block(body)
                if self.st is None:
                    raise Dead()
                return None
            return go
        self.branch(c, run(s.body), run(s.orelse))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            if t.id in self.fstack[-1].get("globals", ()):
                self.ev("global_store", node, target=NONE, name=t.id,
                        value=v)
                # nonlocal: update an enclosing live frame
                for i in range(len(self.fstack) - 2, -1, -1):
                    if t.id in self.st.frames[i]:
                        self.st.frames[i][t.id] = v
                        return
                return
            self.st.frames[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            self.store_sub(base, idx, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def unpack(self, elts, v, node):
        v = self.resolve(v)
        sv = self.val(v)
        if sv.op in ("tuple", "list") and not any(
                isinstance(e, ast.Starred) for e in elts) and not any(
                x.op == "star" for x in sv.args):
            if len(sv.args) == len(elts):
                for e, x in zip(elts, sv.args):
                    self.assign(e, self.resolve(x), node)
                return
            self.ev("bad_unpack", node, want=len(elts), got=len(sv.args))
        if sv.op == "ite":
            vals = [self.branch_sub(sv, i, len(elts), node)
                    for i in range(len(elts))]
            for e, x in zip(elts, vals):
                self.assign(e, x, node)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, mk("opaque", "rest", sv, i), node)
            else:
                self.assign(e, mk("sub", sv, const(i)), node)

    def branch_sub(self, t, i, n, node):
        t = self.val(self.resolve(t))
        if t.op == "ite":
            return ite(t.args[0], self.branch_sub(t.args[1], i, n, node),
                       self.branch_sub(t.args[2], i, n, node))
        if t.op in ("tuple", "list") and len(t.args) == n:
            return t.args[i]
        return mk("sub", t, const(i))

    def store_sub(self, base, idx, v, node):
        base = self.resolve(base)
        if base.op == "ite" and any(x.op == "ref" for x in
                                    ite_leaves(base)):
            c, a, b = base.args
            self.branch(c, lambda: self.store_sub(a, idx, v, node) or NONE,
                        lambda: self.store_sub(b, idx, v, node) or NONE)
            return
        self.ev("mut", node, target=base, how="setitem", idx=idx, value=v)
        if base.op == "ref":
            cur = self.val(base)
            if cur is base:
                return
            if self.kind(base) == "dict":
                self.setval(base, self.dset(cur, idx, self.snap(v)
                                            if v.op != "ref" else v))
            else:
                if cur.op == "list" and idx.op == "const" and isinstance(
                        idx.args[0], int) and \
                        -len(cur.args) <= idx.args[0] < len(cur.args):
                    l = list(cur.args)
                    l[idx.args[0]] = v
                    self.setval(base, mk("list", *l))
                else:
                    self.setval(base, mk("upd", cur, idx, self.snap(v)))
            return
        self.inplace(base, mk("upd", base, self.snap(idx), self.snap(v)))

    def s_AugAssign(self, s):
        o = _BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup_name(t.id, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr(base, t.attr, t)
        else:
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            old = self.subscript(base, idx, t)
        v = self.eval(s.value)
        old = self.resolve(old)
        if old.op == "ref":
            cur = self.val(old)
            if cur is not old:
                self.ev("mut", s, target=old, how="aug" + o, idx=NONE,
                        value=v)
                x = self.snap(v)
                if cur.op == "list" and x.op in ("list", "tuple"):
                    self.setval(old, mk("list", *(list(cur.args) +
                                                  list(x.args))))
                else:
                    self.setval(old, mk("bin", o, cur, x))
                return
        if old.op == "const":
            new = self.binop(o, old, v, s)
        else:
            self.ev("mut", s, target=old, how="aug" + o, idx=NONE, value=v)
            new = mk("augupd", o, old, self.snap(v))
        if isinstance(t, ast.Subscript):
            self.store_sub(base, idx, new, s)
        else:
            if old.op not in ("const", "ref"):
                if self.arrayish(old):
                    self.inplace(old, new)
            self.assign(t, new, s)

    _ARRAY_FUNCS = frozenset((
        "zeros", "ones", "empty", "full", "zeros_like", "ones_like",
        "empty_like", "full_like", "array", "asarray", "copy", "squeeze",
        "reshape", "ravel", "fft", "fftn", "rfftn", "fft2", "rfft",
        "irfftn", "ifftn", "ifft", "fftshift", "ifftshift", "arange",
        "linspace", "logspace", "meshgrid", "sort", "roll", "pad",
        "concatenate", "hstack", "vstack", "where", "histogram", "indices",
        "cumsum", "argsort", "diff", "isfinite"))
    _ELEMENTWISE = frozenset((
        "log10", "log", "sqrt", "exp", "abs", "absolute", "real", "imag",
        "conj", "power", "nan_to_num", "square", "sin", "cos"))

    def arrayish(self, t, depth=12):
        """Evidence that a term denotes an ndarray (shared, mutable)."""
        if depth <= 0:
            return False
        for x in ite_leaves(t):
            if x.op == "call" and x.args[0].op == "ext" and (
                    x.args[0].args[0].startswith("numpy.") or
                    x.args[0].args[0].startswith("scipy.fft")):
                n = x.args[0].args[0].split(".")[-1]
                if n in self._ARRAY_FUNCS:
                    return True
                if n in self._ELEMENTWISE and x.args[1] and \
                        self.arrayish(x.args[1][0], depth - 1):
                    return True
            if x.op == "upd":
                return True
            if x.op == "augupd" and (self.arrayish(x.args[1], depth - 1) or
                                     self.arrayish(x.args[2], depth - 1)):
                return True
            if x.op == "bin" and (self.arrayish(x.args[1], depth - 1) or
                                  self.arrayish(x.args[2], depth - 1)):
                return True
            if x.op == "mu" and self.arrayish(x.args[2], depth - 1):
                return True
            if x.op == "loop" and (self.arrayish(x.args[1], depth - 1) or
                                   self.arrayish(x.args[2], depth - 1)):
                return True
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[-1].pop(t.id, None)
                self.st.frames[-1][t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.eval(t.value), t.attr, s)
            elif isinstance(t, ast.Subscript):
                base = self.resolve(self.eval(t.value))
                idx = self.eval_index(t.slice)
                self.ev("mut", s, target=base, how="delitem", idx=idx,
                        value=NONE)
                if base.op == "ref":
                    cur = self.val(base)
                    if cur is not base:
                        self.setval(base, self.dpop(cur, idx))
                else:
                    self.inplace(base, mk("dpop", base, idx))

    def s_With(self, s):
        ctxs = self.ctxs
        for it in s.items:
            v = self.eval(it.context_expr)
            self.ctxs = self.ctxs + (v,)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", self.snap(v)), s)
        self.exec_block(s.body)
        self.ctxs = ctxs

    def s_Try(self, s):
        pre = self.st.copy()
        tag = mk("exc", "%s%s#%s" % (self._alloc_tag, self.site(s), "|".join(
            "%s:%s" % (f.qual, getattr(n, "lineno", 0))
            for f, n in self.callstack[-8:])))
        n0 = len(self.fstack[-1]["returns"])
        self.st.path = self.st.path + ((tag, False),)
        self.exec_block(s.body)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        body = self.st
        outs = [body]
        for i, h in enumerate(s.handlers):
            self.st = pre.copy()
            self.st.path = self.st.path + ((tag, True),)
            if len(s.handlers) > 1 and i:
                self.st.path = self.st.path + (
                    (mk("excn", self.site(h)), True),)
            if h.name:
                self.st.frames[-1][h.name] = mk("caught", self.site(h))
            if h.type is not None:
                self.ev("handler", h, types=self.eval(h.type))
            else:
                self.ev("handler", h, types=NONE)
            self.exec_block(h.body)
            outs.append(self.st)
        live = [o for o in outs if o is not None]
        self.st = self.join_many(live, "try:" + self.site(s)) if live \
            else None
        if self.st is not None:
            self.st.path = self.st.path if len(live) > 1 else \
                self.st.path
        if s.finalbody:
            if self.st is not None:
                self.exec_block(s.finalbody)
            else:
                # still record its effects
                save = self.st
                self.st = pre.copy()
                self.exec_block(s.finalbody)
                self.st = save

    s_TryStar = s_Try

    # ---------------------------------------------------------------- loops
    def s_Break(self, s):
        self.fstack[-1]["loops"][-1]["breaks"].append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.fstack[-1]["loops"][-1]["conts"].append(self.st)
        self.st = None

    def s_For(self, s):
        it = self.eval(s.iter)
        items = self.iter_items(it)
        self.loops += 1
        if items is not None and len(items) <= UNROLL:
            lp = {"breaks": [], "conts": []}
            self.fstack[-1]["loops"].append(lp)
            tag = self._alloc_tag
            try:
                for i, x in enumerate(items):
                    if self.st is None:
                        break
                    # each unrolled pass allocates its own objects
                    self._alloc_tag = tag + ("%d~" % i if len(items) > 1
                                             else "")
                    lp["conts"] = []
                    self.assign(s.target, self.resolve(x), s)
                    self.exec_block(s.body)
                    if lp["conts"]:
                        self.st = self.join_many(
                            [self.st] + lp["conts"], self.site(s))
            finally:
                self._alloc_tag = tag
                self.fstack[-1]["loops"].pop()
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            if lp["breaks"]:
                self.st = self.join_many([self.st] + lp["breaks"],
                                         self.site(s))
            return
        si = self.snap(it)
        site = self.loop_site(s)
        self.generic_loop(
            s, lambda: self.assign(s.target, self.elem_of(si, site), s),
            site, si)

    def counting(self, s):
        """``while i < n: ...; i += 1`` as the equivalent ``for``"""
        t = s.test
        if s.orelse or not (
                isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not isinstance(a, ast.Name) or not s.body:
            return None
        last = s.body[-1]
        one = isinstance(last, ast.AugAssign) and isinstance(
            last.op, ast.Add) and isinstance(last.target, ast.Name) and \
            last.target.id == a.id and isinstance(last.value, ast.Constant) \
            and last.value.value == 1 or \
            isinstance(last, ast.Assign) and len(last.targets) == 1 and \
            isinstance(last.targets[0], ast.Name) and \
            last.targets[0].id == a.id and isinstance(
                last.value, ast.BinOp) and isinstance(
                last.value.op, ast.Add) and isinstance(
                last.value.left, ast.Name) and \
            last.value.left.id == a.id and isinstance(
                last.value.right, ast.Constant) and \
            last.value.right.value == 1
        if not one:
            return None
        bound = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
        for x in s.body[:-1]:
            for n in ast.walk(x):
                if isinstance(n, (ast.Break, ast.Continue)) or isinstance(
                        n, ast.Name) and not isinstance(n.ctx, ast.Load) \
                        and (n.id == a.id or n.id in bound):
                    return None
        v = self.st.frames[-1].get(a.id)
        if v is None:
            return None
        args = [b] if v.op == "const" and v.args[0] == 0 and \
            type(v.args[0]) is int else [ast.Name(a.id, ast.Load()), b]
        f = ast.For(ast.Name(a.id, ast.Store()),
                    ast.Call(ast.Name("range", ast.Load()), args, []),
                    s.body[:-1] or [ast.Pass()], [])
        ast.copy_location(f, s)
        for n in (f.target, f.iter, f.iter.func, *f.iter.args, *f.body):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, s)
        return f

    def s_While(self, s):
        f = self.counting(s)
        if f is not None:
            self.s_For(f)
            if self.st is not None:
                n = f.iter.args[-1]
                self.assign(f.target, self.eval(n), s)
            return
        site = self.loop_site(s)
        self.loops += 1

        tests = []

        def head():
            c = self.truthy(self.eval(s.test))
            d = decide(c, self.st.facts)
            if d is None:
                self.st.facts = add_fact(self.st.facts, c, True)
                tests[:] = [c]
        self.generic_loop(s, head, site, mk("opaque", "while", site), tests)

    def generic_loop(self, s, head, site, si, tests=()):
        pre = self.st.copy()
        prefacts, prepath = self.st.facts, self.st.path
        lp = {"breaks": [], "conts": []}
        self.fstack[-1]["loops"].append(lp)
        nret = len(self.fstack[-1]["returns"])
        # pass 1: what does one iteration change?
        self.mute += 1
        before, self.allocated = self.allocated, set()
        try:
            self.st = pre.copy()
            try:
                head()
                self.exec_block(s.body)
            except Dead:
                self.st = None
            ends = [x for x in [self.st] + lp["conts"] + lp["breaks"]
                    if x is not None]
            out1 = self.join_many(ends, site)
        finally:
            self.mute -= 1
            made = self.allocated
            self.allocated = before | made
        del self.fstack[-1]["returns"][nret:]
        ys = self.fstack[-1]["yields"]
        del ys[len(ys) // 2 if False else len(ys):]
        lp["breaks"], lp["conts"] = [], []
        start = pre.copy()
        changed_l, changed_h, mus = [], [], {}
        if out1 is not None:
            for i, f in enumerate(out1.frames):
                pf = pre.frames[i] if i < len(pre.frames) else {}
                for k, v in f.items():
                    if k == "__ret__":
                        continue
                    if k in pf and pf[k] is not v:
                        changed_l.append((i, k))
                        start.frames[i][k] = mus[i, k] = mk(
                            "mu", site, k, self.snap(pf[k]))
            live = None
            for hk, h in out1.heap.items():
                ph = pre.heap.get(hk)
                if ph is None:
                    continue
                if hk in made and hk.startswith("obj"):
                    # made anew in each iteration
                    continue
                if hk.startswith(("list@", "dict@", "set@")) and any(
                        ph.get(k, UNDEF) is not v for k, v in h.items()):
                    # left over from an earlier call, made anew here
                    if live is None:
                        live = self.live(pre)
                    if hk not in live:
                        continue
                for k, v in h.items():
                    pv = ph.get(k, UNDEF)
                    if pv is not v:
                        changed_h.append((hk, k))
                        if pv is UNDEF:
                            continue
                        start.heap[hk][k] = mus[hk, k] = mk(
                            "mu", site, k, self.snap(pv))
        # pass 2 with generalised carried values
        self.st = start
        nret = len(self.fstack[-1]["returns"])
        try:
            head()
            self.exec_block(s.body)
        except Dead:
            self.st = None
        self.fstack[-1]["loops"].pop()
        ends = [x for x in [self.st] + lp["conts"] if x is not None]
        brk = lp["breaks"]
        out = self.join_many(ends + brk, site)
        if out is None:
            # every iteration leaves the function: zero iterations remain
            if self.loops_run and len(self.fstack[-1]["returns"]) == nret:
                self.st = None
                raise Dead()
            self.st = pre
            for r in self.fstack[-1]["returns"][nret:]:
                r.path = prepath + ((mk("choice", site, "ret"), True),)
            self.st.path = prepath + ((mk("choice", site, "ret"), False),)
            return
        post = out
        rets = self.fstack[-1]["returns"][nret:]
        n = len(prepath)
        # what ends the loop, and how the values it looks at evolve
        ends = list(tests) + [
            and_(*[c if v else not_(c) for c, v in b.path[n:]])
            for b in brk + rets if b.path[:n] == prepath and
            len(b.path) > n]
        steps = {}
        for i, k in changed_l:
            v = post.frames[i].get(k, UNDEF)
            if v is not UNDEF:
                steps.setdefault(mus[i, k], []).append(self.snap(v))
        for hk, k in changed_h:
            v = post.heap.get(hk, {}).get(k, UNDEF)
            if v is not UNDEF and (hk, k) in mus:
                steps.setdefault(mus[hk, k], []).append(self.snap(v))
        post.path = prepath
        post.facts = prefacts
        memo = {}

        def carried(t):
            r = memo.get(t.id)
            if r is None:
                r = memo[t.id] = [x for x in walk(t) if x.op == "mu" and x.args[0] == site]
            return r

        def system(v, k):
            """the recurrences the final value of ``v`` depends on"""
            todo = list(ends) + [v]
            seen, out = {mus.get(k)}, []
            while todo:
                for m in carried(todo.pop(0)):
                    if m not in seen:
                        seen.add(m)
                        out += steps.get(m, ())
                        todo += steps.get(m, ())
            if not out and not ends:
                return si
            return mk("until", si, tuple(ends), tuple(out))
        if ends and rets:
            retc = mk("choice", site, "ret", system(NONE, None))
        else:
            retc = mk("choice", site, "ret")
        for i, k in changed_l:
            v = post.frames[i].get(k, UNDEF)
            p0 = pre.frames[i].get(k, UNDEF)
            if v is UNDEF:
                continue
            if any(x.op == "mu" and x.args[0] == site for x in
                   walk(v)) or v is not p0:
                post.frames[i][k] = self.loop_out(site, k, p0, v,
                                                  system(v, (i, k)))
        if out1 is not None:
            # values first made inside the loop
            for i, f in enumerate(post.frames):
                pf = pre.frames[i] if i < len(pre.frames) else {}
                for k, v in f.items():
                    if k not in pf and k != "__ret__" and \
                            v.op != "ref" and (carried(v)):
                        f[k] = mk("loop", site, UNDEF, self.snap(v),
                                  system(v, k))
        for hk, k in changed_h:
            v = post.heap.get(hk, {}).get(k, UNDEF)
            p0 = pre.heap.get(hk, {}).get(k, UNDEF)
            if v is UNDEF:
                continue
            post.heap[hk][k] = self.loop_out(site, k, p0, v,
                                              system(v, (hk, k)))
        for r in rets:
            # returned from inside the loop
            r.path = prepath + ((retc, True),)
        self.st = post
        if rets:
            self.st.path = prepath + ((retc, False),)
        if s.orelse:
            self.exec_block(s.orelse)

    def live(self, st):
        """heap objects reachable from the local variables"""
        seen = set()
        todo = [v for f in st.frames for v in f.values()]
        while todo:
            for k in refs_in(todo.pop()):
                if k not in seen:
                    seen.add(k)
                    todo += [v for v in st.heap.get(k, {}).values()
                             if isinstance(v, T)]
        return seen

    def loop_out(self, site, k, p0, v, si):
        if v is p0:
            return v
        if v.op in ("ref",):
            return v
        if p0 is UNDEF:
            return v
        return mk("loop", site, self.snap(p0), self.snap(v), si)

    # ------------------------------------------------------------ entry API
    def entry_frame(self):
        """A root frame so that entry calls have a caller."""
        mod = next(iter(self.p.modules.values()))
        f = Func(mod, ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
            body=ast.Constant(None)), qual="<entry>")
        self.st.frames.append({})
        self.fstack.append({"func": f, "returns": [], "loops": [],
                            "encl": None, "yields": []})

    def symbolic_args(self, f, scope, skip_self=True, fixed=None):
        """Symbolic locals for every parameter of ``f``."""
        fixed = fixed or {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and f.cls is not None and f.kind not in (
                "staticmethod",) and names:
            names = names[1:]
        loc = {}
        for n in names + [x.arg for x in a.kwonlyargs]:
            loc[n] = fixed.get(n, param(scope, n))
        if a.vararg:
            loc[a.vararg.arg] = fixed.get(a.vararg.arg,
                                          param(scope, a.vararg.arg))
        if a.kwarg:
            if a.kwarg.arg in fixed:
                v = fixed[a.kwarg.arg]
            else:
                v = mk("dcopy", param(scope, a.kwarg.arg))
            key = "dict@kw:%s#entry:%s" % (f.qual, scope)
            self.st.heap[key] = {"__val__": v}
            loc[a.kwarg.arg] = mk("ref", key)
        return loc

    def enter(self, f, scope, self_ref=None, fixed=None):
        """Analyse ``f`` with symbolic parameters; value, or None when every
        path raises."""
        if not self.st.frames:
            self.entry_frame()
        node = f.node
        loc = self.symbolic_args(f, scope, fixed=fixed)
        if f.cls is not None and f.kind not in ("staticmethod",):
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if names:
                loc[names[0]] = self_ref
        self.functions_seen.add(f.qual)
        pre = self.st.copy()
        try:
            return self.run_body(f, loc, node)
        except Dead:
            self.st = pre
            return None

    def new_object(self, cls, scope="init", fixed=None, tag=""):
        """Allocate an instance and analyse its constructor with symbolic
        parameters."""
        if not self.st.frames:
            self.entry_frame()
        ref = mk("ref", "obj:%s@entry%s" % (cls.name, tag))
        self.objclass[ref] = cls
        self.st.heap[ref.args[0]] = {}
        hit = self.p.find(cls, "__init__")
        if hit and hit[0] == "methods":
            r = self.enter(hit[1], scope, ref, fixed)
            if r is None:
                raise AnalysisError("constructor of %s always raises in the "
                                    "analysis" % cls.name)
        return ref
