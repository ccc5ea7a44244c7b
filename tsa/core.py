"""Shared plumbing of the rules: findings, entry points, memory roots."""
import os
import re

from . import libmodel as lib
from .libmodel import fancy
from .interp import Interp, Dead
from .project import Project, AnalysisError, doc_types
from .terms import T, mk, NONE, walk, ite_leaves, leaves, show

REPO = os.environ.get("TSA_REPO", "/repo")


class Finding(object):
    """One violated obligation, identified by rule + construct."""

    def __init__(self, rule, where, construct, msg, line=0, trace=()):
        self.rule = rule
        self.where = where
        self.construct = construct
        self.msg = msg
        self.line = line
        self.trace = tuple(trace)

    @property
    def key(self):
        return "%s | %s | %s" % (self.rule, self.where, self.construct)

    def __repr__(self):
        return "%s (line %s): %s" % (self.key, self.line, self.msg)


class Report(object):
    def __init__(self):
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.rules = []
        self.floor = {}

    def at_least(self, name, got, want):
        """Guard against vacuity: instances found vs confirmed by hand."""
        self.floor[name] = (got, want)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, ok, finding=None, sample=None):
        """One obligation."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        elif finding is not None:
            self.add(finding)

    def add(self, f):
        self.findings.setdefault(f.key, f)

    def saw(self, ip):
        self.functions |= ip.functions_seen
        self.count("calls_inlined", ip.calls_inlined)
        self.count("branches", ip.branches)
        self.count("loops", ip.loops)
        self.count("library_calls", ip.ext_calls)


def load():
    return Project(REPO, "turbustat")


def chain(e):
    """The call path of an event, outermost first."""
    out = []
    for f, n in e.stack:
        out.append("%s:%s" % (f.where(), getattr(n, "lineno", 0)))
    return out


def fwhere(f):
    q = f.qual
    m = f.module.name
    if q.startswith(m + "."):
        q = q[len(m) + 1:]
    return "%s:%s" % (f.module.rel, q)


def ewhere(e):
    return fwhere(e.func) if e.func is not None else "?"


# ------------------------------------------------------------------ classes
def stat_classes(p):
    """Every class of the package."""
    return sorted(p.classes.values(), key=lambda c: c.qual)


def is_public(name):
    return not name.startswith("_")


def public_methods(p, cls, own=False):
    """(name, Func) for each public method/property reachable on ``cls``."""
    seen = {}
    for c in p.mro(cls):
        for n, f in list(c.methods.items()):
            if is_public(n):
                seen.setdefault(n, ("methods", f))
        for n, f in list(c.props.items()):
            if is_public(n):
                seen.setdefault(n, ("props", f))
        if own:
            break
    return seen


def public_functions(p):
    out = []
    for m in p.modules.values():
        for f in m.funcs.values():
            if is_public(f.name):
                out.append(f)
    return sorted(out, key=lambda f: f.qual)


def has_method(p, cls, name):
    h = p.find(cls, name)
    return h[1] if h and h[0] == "methods" else None


def main_methods(p, cls):
    """The analysis entry of a class: run / distance_metric / ..."""
    for n in ("run", "distance_metric", "make_moments"):
        f = has_method(p, cls, n)
        if f is not None:
            return [f]
    return []


# ------------------------------------------------------------- memory roots
def roots(t, memo=None, cap=60):
    """Parameters / shared containers whose memory ``t`` may be.  A result is
    *fresh* (no roots) when the operation that made it copies."""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = frozenset()
    r = _roots(t, memo, cap)
    memo[t.id] = r
    return r


def _roots(t, memo, cap):
    o, a = t.op, t.args
    if o in ("param",):
        return frozenset([t])
    if o == "ref":
        if "@default:" in a[0] or "@global:" in a[0]:
            return frozenset([t])
        return frozenset()
    if o == "global":
        return frozenset([t])

    def rec(x):
        return roots(x, memo, cap - 1)
    if o == "ite":
        return rec(a[1]) | rec(a[2])
    if o == "sub":
        if a[0].op in ("comp",):
            s = frozenset()
            for x in a[0].args[0]:
                s |= rec(x)
            return s
        if a[0].op in ("list", "tuple"):
            s = frozenset()
            for x in a[0].args:
                s |= rec(x)
            return s
        if fancy(a[1]):
            return frozenset()
        if a[1].op == "const" and isinstance(a[1].args[0], str):
            return rec(a[0]) | inner(a[0], rec)
        return rec(a[0])
    if o == "get":
        return rec(a[0]) | inner(a[0], rec) | rec(a[2])
    if o == "attr":
        if a[1] in lib.VIEW_ATTRS:
            return rec(a[0])
        return frozenset()
    if o == "uattr":
        return rec(a[0])
    if o in ("upd", "dpop", "dset"):
        return rec(a[0])
    if o == "augupd":
        return rec(a[1])
    if o == "dmerge":
        return rec(a[0])
    if o == "elem":
        return rec(a[0])
    if o == "enter":
        return rec(a[0])
    if o == "mu":
        return rec(a[2])
    if o == "loop":
        return rec(a[1]) | rec(a[2])
    if o == "star":
        return rec(a[0])
    if o == "call":
        fn, args, kws = a
        kw = dict(kws)
        if fn.op == "ext":
            n = fn.args[0]
            if n in lib.VIEW_FUNCS and args:
                return rec(args[0])
            if n in lib.COPY_KW_FUNCS and args:
                c = kw.get("copy")
                if c is not None and c.op == "const" and not c.args[0]:
                    return rec(args[0])
            return frozenset()
        if fn.op == "attr":
            m, base = fn.args[1], fn.args[0]
            if m in lib.VIEW_METHODS:
                return rec(base)
            if m in lib.COPY_KW_METHODS:
                c = kw.get("copy")
                if c is not None and c.op == "const" and not c.args[0]:
                    return rec(base)
            if m in ("get", "pop", "setdefault") and args:
                r = rec(base) | inner(base, rec)
                for x in args[1:]:
                    r |= rec(x)
                return r
            if m == "pop":
                return rec(base)
        return frozenset()
    return frozenset()


SHALLOW = {"copy.copy", "builtins.dict"}


def inner(t, rec):
    """Whose memory may what is nested in the container ``t`` be: a shallow
    copy keeps the nested objects of the original."""
    o, a = t.op, t.args
    if o == "ite":
        return inner(a[1], rec) | inner(a[2], rec)
    if o in ("dpop", "dset", "uattr"):
        return inner(a[0], rec)
    if o == "dmerge":
        return inner(a[0], rec) | inner(a[1], rec) | rec(a[1])
    if o == "mu":
        return inner(a[2], rec)
    if o == "loop":
        return inner(a[1], rec) | inner(a[2], rec)
    if o == "call":
        fn, args, kws = a
        if fn.op == "ext" and fn.args[0] in SHALLOW and args:
            return rec(args[0]) | inner(args[0], rec)
        if fn.op == "attr" and fn.args[1] == "copy" and not args:
            return rec(fn.args[0]) | inner(fn.args[0], rec)
    return frozenset()


# ---------------------------------------------------------------- utilities
_ARR = re.compile(r"ndarray|array|hdu|cube|image|map|quantity|projection|"
                  r"slice|list|header|mask", re.I)
_DICT = re.compile(r"\bdict|kwargs", re.I)


def param_doc(f, name):
    """Documented type of a parameter (own docstring, then the class')."""
    d = doc_types(f.doc())
    if name in d:
        return d[name]
    if f.cls is not None:
        import ast
        d = doc_types(ast.get_docstring(f.cls.node) or "")
        if name in d:
            return d[name]
    return ""


def default_expr(f, name):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if n == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


class Scenario(object):
    """One analysed entry: events of entering ``func`` with symbolic
    arguments (scope -> Func gives the signature of each scope used)."""

    def __init__(self, label, ip, obj, cls, func, scopes, events, value,
                 raised):
        self.label = label
        self.ip = ip
        self.obj = obj
        self.cls = cls
        self.func = func
        self.scopes = scopes
        self.events = events
        self.value = value
        self.raised = raised


def _dataflow_state(ip):
    return ip.st.copy()


def class_scenarios(p, cls, report=None, **kw):
    """Constructor; main method after it; every public method/property/setter
    of the class after those."""
    ip = Interp(p, **kw)
    scopes = {}
    hit = p.find(cls, "__init__")
    init = hit[1] if hit and hit[0] == "methods" else None
    try:
        obj = ip.new_object(cls)
    except AnalysisError:
        # always raises: an abstract base; analyse methods with no state
        obj = mk("ref", "obj:%s@entry" % cls.name)
        ip.objclass[obj] = cls
        ip.st.heap[obj.args[0]] = {}
    if init is not None:
        scopes["init"] = init
    yield Scenario(cls.name, ip, obj, cls, init, dict(scopes),
                   list(ip.events), None, False)
    base0 = ip.st.copy()
    mains = main_methods(p, cls)
    for f in mains:
        n0 = len(ip.events)
        sc = f.name
        scopes[sc] = f
        v = ip.enter(f, sc, obj)
        yield Scenario("%s.%s" % (cls.name, f.name), ip, obj, cls, f,
                       dict(scopes), ip.events[n0:], v, v is None)
    base = ip.st.copy()
    todo = []
    for n, (k, f) in sorted(public_methods(p, cls).items()):
        if f in mains:
            continue
        todo.append((n, f))
    for c in p.mro(cls):
        for n, f in sorted(c.setters.items()):
            todo.append((n + "#set", f))
    for n, f in todo:
        n0 = len(ip.events)
        ip.st = base.copy()
        sc = "m"
        s2 = dict(scopes)
        s2[sc] = f
        ref = mk("class", cls.qual) if f.kind == "classmethod" else obj
        v = ip.enter(f, sc, ref)
        yield Scenario("%s.%s" % (cls.name, n), ip, obj, cls, f, s2,
                       ip.events[n0:], v, v is None)
    if report is not None:
        report.saw(ip)


def func_scenarios(p, report=None, **kw):
    for f in public_functions(p):
        ip = Interp(p, **kw)
        v = ip.enter(f, "arg", None)
        yield Scenario(f.name, ip, None, None, f, {"arg": f},
                       list(ip.events), v, v is None)
        if report is not None:
            report.saw(ip)


def all_scenarios(p, report=None, **kw):
    for c in stat_classes(p):
        for s in class_scenarios(p, c, report, **kw):
            yield s
    for s in func_scenarios(p, report, **kw):
        yield s
