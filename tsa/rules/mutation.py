"""Shared by P01 and P02: in-place changes of caller-owned memory."""
import ast
import re

from .. import libmodel as lib
from ..core import (all_scenarios, roots, ewhere, chain, Finding, param_doc,
                    default_expr)
from ..terms import walk, mk, show, ite_leaves, leaves

DATA_ATTRS = set(lib.VIEW_ATTRS) | {"shape", "dtype", "mask", "unit",
                                   "_mask", "_wcs", "_unit"}

# np.pad's documented protocol for its callback: fill the padding in place
CALLBACK_CONTRACT = ("vector", "iaxis_pad_width")

_SCALAR = re.compile(r"^\s*(\{[^}]*\}|str|string|int|integer|float|bool|"
                     r"number|None|optional|[,\s'\"/]|or)*\s*\.?$", re.I)


def is_pad_callback(f):
    ps = f.params
    return bool(ps) and ps[0] == "vector" and "pad_width" in \
        " ".join(ps) and len(ps) >= 3


def scalar_param(f, name):
    """Documented (or defaulted) as an immutable scalar / string."""
    d = param_doc(f, name)
    if d and _SCALAR.match(d.split(",")[0]):
        return True
    e = default_expr(f, name)
    if isinstance(e, ast.UnaryOp):
        e = e.operand
    if isinstance(e, ast.Constant) and isinstance(e.value,
                                                  (str, int, float)):
        return True
    if isinstance(e, ast.Attribute) or isinstance(e, ast.BinOp):
        return True
    return False


def dictlike(e):
    """Is the mutation one of a mapping?"""
    h = e.how
    if h in ("setitem", "delitem", "pop", "update", "setdefault", "clear"):
        if h in ("setdefault", "update"):
            return True
        if e.idx.op == "const" and isinstance(e.idx.args[0], str):
            return True
        if h in ("pop", "clear"):
            return True
        return False
    if h in (".pop()", ".update()", ".setdefault()", ".popitem()"):
        return True
    return False


def owner_is_stat(e, root):
    """The root is, on this path, an already computed statistic object."""
    for f, v in e.facts.items():
        if v and f.op == "call" and f.args[0].op == "ext" and \
                f.args[0].args[0] == "builtins.isinstance" and \
                f.args[1][0] is root and any(
                    k.op == "class" for k in walk(f.args[1][1])):
            return True
    return False


def mutations(p, rep):
    """(scenario, event, root) for every in-place change of memory that a
    parameter of the analysed entry point owns."""
    n = 0
    for s in all_scenarios(p, rep):
        n += 1
        memo = {}
        for e in s.events:
            if e.kind != "mut":
                continue
            if e.how == "setattr" and e.idx.args[0] not in DATA_ATTRS:
                # a flag of the object, not its contents
                continue
            rep.count("in_place_operations")
            rs = roots(e.target, memo)
            live = []
            for r in rs:
                if r.op == "param":
                    f = s.scopes.get(r.args[0])
                    if f is None:
                        continue
                    a = f.node.args
                    if a.kwarg and r.args[1] == a.kwarg.arg and \
                            e.target.op != "sub" and not _nested(e.target,
                                                                 r):
                        continue
                    if is_pad_callback(f):
                        rep.count("np.pad_callbacks")
                        continue
                    if owner_is_stat(e, r):
                        rep.count("precomputed_statistic_updates")
                        continue
                    if e.how.startswith("aug"):
                        if e.value.op in ("const", "fstr") and (
                                e.value.op == "fstr" or isinstance(
                                    e.value.args[0], str)):
                            continue
                        if r.args[1] == e.get("name"):
                            continue
                        if scalar_param(f, r.args[1]) or \
                                _scalar_path(e.target, r):
                            continue
                    live.append((r, f))
                else:
                    live.append((r, None))
            yield s, e, live
    rep.count("entry_points", n)


def _nested(t, r):
    """The target is something inside the container ``r``."""
    for x in ite_leaves(t):
        while x.op in ("upd", "dset", "dpop", "uattr"):
            x = x.args[0]
        if x.op in ("sub", "get", "elem") and r in leaves(x):
            return True
    return False


def _scalar_path(t, r):
    """x comes out of an option mapping under a name whose use is scalar
    (``get(kwargs, 'h_step', 1e-6)``: the default is a number)."""
    for x in walk(t):
        if x.op == "get" and r in leaves(x.args[0]) and \
                x.args[2].op == "const" and x.args[2].args[0] is not None:
            return True
        if x.op == "get" and isinstance(x.args[1], str) and (
                x.args[1].endswith("name") or x.args[1] in ("nbins",)):
            return True
    return False


def describe(r, f):
    if r.op == "param":
        return "parameter '%s'" % r.args[1] if f is None or f.cls is None \
            else "parameter '%s' of %s.%s" % (r.args[1], f.cls.name, f.name)
    if r.op == "ref":
        if "@default:" in r.args[0]:
            return "the shared default value " + \
                r.args[0].split("@default:")[1]
        return "the module-level object " + r.args[0].split("@global:")[1]
    return str(r)
