"""Hash-consed value terms (the abstract domain of the value-flow analysis).

A term describes *where a value comes from*: parameters, constants, heap
references, library calls, operators, gated joins (``ite``), in-place updates
(``upd``), loop-carried values (``mu``/``loop``).  Terms are immutable and
shared, so equality is identity.
"""
import itertools

_TABLE = {}
_COUNT = itertools.count()


class T(object):
    __slots__ = ("op", "args", "id", "_leaves", "__weakref__")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.id = next(_COUNT)
        self._leaves = None

    def __repr__(self):
        return show(self, 6)

    # Sub-terms, also inside nested tuples (kwargs, dict items).
    def kids(self):
        out = []

        def rec(a):
            if isinstance(a, T):
                out.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    rec(b)
        for a in self.args:
            rec(a)
        return out


def _key(a):
    if isinstance(a, T):
        return ("T", a.id)
    if isinstance(a, tuple):
        return tuple(_key(b) for b in a)
    return (type(a).__name__, repr(a) if isinstance(a, float) else a)


def mk(op, *args):
    key = (op,) + tuple(_key(a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args)
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
ELLIPSIS = const(Ellipsis)


def is_const(t, v=None):
    return t.op == "const" and (v is None or t.args[0] == v)


def param(scope, name):
    return mk("param", scope, name)


def ext(name):
    return mk("ext", name)


def walk(t, seen=None):
    """Every distinct sub-term of ``t`` (pre-order, each once)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.kids())


def leaves(t):
    """Set of ('param'/'ref'/'global') leaf terms that occur in ``t``."""
    if t._leaves is not None:
        return t._leaves
    # iterative post-order
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x._leaves is not None:
            continue
        if x.op in ("param", "ref", "global", "stat"):
            x._leaves = frozenset([x])
            if x.op != "stat":
                continue
            continue
        kids = x.kids()
        if done:
            s = set()
            for k in kids:
                s |= k._leaves or frozenset()
            x._leaves = frozenset(s)
        else:
            stack.append((x, True))
            for k in kids:
                if k._leaves is None:
                    stack.append((k, False))
    return t._leaves


def show(t, depth=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "..."
    o, a = t.op, t.args
    d = depth - 1
    if o == "const":
        return repr(a[0])
    if o == "param":
        return a[1] if a[0] in ("", "arg") else "%s.%s" % (a[0], a[1])
    if o == "ref":
        return "<%s>" % (a[0],)
    if o in ("ext", "func", "class", "global", "mod"):
        return ".".join(str(x) for x in a)
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o in ("bin", "cmp", "augupd"):
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "un":
        return "%s%s" % (a[0], show(a[1], d))
    if o == "call":
        parts = [show(x, d) for x in a[1]]
        parts += ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0], d), ", ".join(parts))
    if o == "ite":
        return "ite(%s; %s; %s)" % tuple(show(x, d) for x in a)
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------- booleans

_NEG = {"==": "!=", "!=": "==", "is": "is not", "is not": "is",
        "in": "not in", "not in": "in"}


def cmp_(op, a, b):
    # orient > and >= as < and <=
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if op in ("!=", "is not", "not in"):
        return not_(cmp_(_NEG[op], a, b))
    if op in ("==", "is"):
        if a is b and a.op in ("const", "ref", "class", "func"):
            return TRUE
        if a.op == "const" and b.op == "const":
            try:
                return const(bool(a.args[0] == b.args[0]))
            except Exception:
                pass
        if a.op == "const" and b.op != "const":
            a, b = b, a
        if b is NONE and op == "==":
            op = "is"
        if b is NONE and never_none(a):
            return FALSE
        if a.op == "ite":
            x = cmp_(op, a.args[1], b)
            y = cmp_(op, a.args[2], b)
            if x.op == "const" or y.op == "const":
                return ite(a.args[0], x, y)
    if op in ("<", "<=") and a.op == "const" and b.op == "const":
        try:
            return const(bool(a.args[0] < b.args[0] if op == "<"
                              else a.args[0] <= b.args[0]))
        except Exception:
            pass
    if op in ("<", "<="):
        for x, big in ((a, FALSE), (b, TRUE)):
            if x.op == "const" and isinstance(x.args[0], float) and \
                    x.args[0] == float("inf"):
                # against something finite
                return big
    if op == "in":
        if b.op in ("tuple", "list", "set") and all(
                x.op == "const" for x in b.args):
            if len(b.args) <= 12:
                return or_(*[cmp_("==", a, x) for x in b.args])
    return mk("cmp", op, a, b)


def never_none(t):
    if t.op == "const":
        return t.args[0] is not None
    if t.op in ("ref", "tuple", "list", "dict", "set", "class", "func", "bin",
                "cmp", "and", "not", "fstr", "closure", "bound", "ext",
                "comp", "slice", "un", "qty", "unit", "inst"):
        return True
    if t.op in ("upd", "augupd"):
        return True
    if t.op == "param" and t.args[0] == "fmt":
        return True
    if t.op == "loop":
        return never_none(t.args[1]) and never_none(t.args[2])
    if t.op == "mu":
        return never_none(t.args[2])
    if t.op == "sub" and t.args[0].op == "call" and \
            t.args[0].args[0].op == "ext" and t.args[0].args[0].args[0] in (
                "numpy.histogram", "numpy.histogram2d", "numpy.unique",
                "numpy.meshgrid", "numpy.modf", "numpy.where"):
        return True
    if t.op == "ite":
        return never_none(t.args[1]) and never_none(t.args[2])
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext" and f.args[0].split(".")[0] in (
                "numpy", "astropy", "scipy", "statsmodels", "spectral_cube"):
            return True
        if f.op == "attr" and f.args[1] in ("copy", "astype", "to", "reshape",
                                            "squeeze", "ravel", "flatten",
                                            "sum", "mean", "min", "max",
                                            "format", "strip", "any", "all"):
            return True
    if t.op == "attr" and t.args[1] in ("value", "shape", "T", "real", "size",
                                        "unit"):
        return True
    return False


def truth(t):
    """Static truth value of a term, or None."""
    if t.op == "const":
        try:
            return bool(t.args[0])
        except Exception:
            return None
    if t.op in ("func", "class", "closure", "bound", "ext"):
        return True
    if t.op in ("tuple", "list", "dict", "set"):
        return len(t.args) > 0
    return None


def not_(t):
    v = truth(t)
    if v is not None:
        return const(not v)
    if t.op == "not":
        return t.args[0]
    return mk("not", t)


def and_(*ts):
    out = []
    for t in ts:
        v = truth(t)
        if v is False:
            return FALSE
        if v is True:
            continue
        for x in (t.args if t.op == "and" else (t,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*ts):
    out = []
    for t in ts:
        v = truth(t)
        if v is True:
            return TRUE
        if v is False:
            continue
        for x in (t.args if t.op == "or" else (t,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if a is b:
        return a
    v = truth(c)
    if v is True:
        return a
    if v is False:
        return b
    while c.op == "not":
        c = c.args[0]
        a, b = b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk("ite", c, a, b)


def ite_leaves(t):
    """The alternatives a gated value may take."""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            stack.append(x.args[2])
            stack.append(x.args[1])
        else:
            out.append(x)
    return out


def subst(t, fn, memo=None):
    """Rebuild ``t`` bottom-up; ``fn(term)`` may return a replacement (applied
    top-down first, then again after the children have been rebuilt)."""
    memo = {} if memo is None else memo

    def rec_any(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rec_any(b) for b in a)
        return a

    def rec(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        y = fn(x)
        if y is not None and y is not x:
            memo[x.id] = y
            return y
        args = tuple(rec_any(a) for a in x.args)
        if x.op == "ite":
            r = ite(*args)
        elif x.op == "not":
            r = not_(*args)
        elif x.op == "and":
            r = and_(*args)
        elif x.op == "or":
            r = or_(*args)
        elif x.op == "cmp":
            r = cmp_(*args)
        else:
            r = mk(x.op, *args)
        memo[x.id] = r
        return r
    import sys
    old = sys.getrecursionlimit()
    if old < 20000:
        sys.setrecursionlimit(20000)
    return rec(t)


def decided(c):
    """True or False when a condition holds for all or for no values of its
    atoms."""
    atoms = []

    def find(x):
        if x in (TRUE, FALSE):
            return True
        if x.op in ("ite", "and", "or", "not"):
            return all(find(y) for y in x.args)
        if x not in atoms:
            atoms.append(x)
        return len(atoms) <= 8
    if c.op not in ("ite", "and", "or") or not find(c):
        return None

    def val(x, env):
        if x in (TRUE, FALSE):
            return x is TRUE
        if x.op == "ite":
            return val(x.args[1] if val(x.args[0], env) else x.args[2], env)
        if x.op == "and":
            return all(val(y, env) for y in x.args)
        if x.op == "or":
            return any(val(y, env) for y in x.args)
        if x.op == "not":
            return not val(x.args[0], env)
        return env[x]
    got = {val(c, dict(zip(atoms, bits))) for bits in itertools.product(
        (False, True), repeat=len(atoms))}
    return got.pop() if len(got) == 1 else None
