"""P11: no accepted combination of options reads something undefined."""
import ast

from ..core import (Finding, ewhere, fwhere, chain, all_scenarios, is_public)
from ..terms import show, walk

RULE = ("on every feasible path of every constructor, run/distance_metric, "
        "public method and public function: each local variable and global "
        "name is bound before it is read, each attribute the computation "
        "reads was assigned on that path, no attribute or element of None is "
        "taken, and each call of a repository "
        "function passes arguments that function accepts")
EXPLANATION = (
    "Gated values carry an UNDEF alternative with the condition under which "
    "nothing was assigned; a read reports it when that condition is "
    "consistent with the conditions of the reading path (propositional "
    "check over the atomic branch conditions).  A loop body is assumed to "
    "run at least once.  Reading a result property before computing it is "
    "the caller's history and not reported; plot-only code is covered by "
    "name resolution only.")
ASSUMPTIONS = ["loops over data run at least once",
               "a header is present where the data set is required to have "
               "one"]


def loop_assigned(func, name):
    """Is ``name`` bound inside a loop of ``func``?"""
    for n in ast.walk(func.node):
        if isinstance(n, (ast.For, ast.While)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id == name and isinstance(
                        x.ctx, ast.Store):
                    return True
                if isinstance(x, (ast.Import, ast.ImportFrom)) and any(
                        (a.asname or a.name) == name for a in x.names):
                    return True
    return False


def varying(cond):
    """The condition changes from one iteration to the next, so an earlier
    one may have made the assignment."""
    if not isinstance(cond, tuple) or not cond:
        return True
    return any(x.op in ("mu", "elem", "index", "choice", "loop", "next",
                        "opaque") for c, _ in cond for x in walk(c))


def when(cond):
    if not isinstance(cond, tuple) or not cond:
        return ""
    return " when " + ", ".join("%s%s" % ("" if v else "not ",
                                          show(c, 3)[:60])
                                for c, v in cond[:4])


def plotting(e):
    return any(f.name.startswith("plot") for f, _ in e.stack) or (
        e.func is not None and e.func.name.startswith("plot"))


def getter_read(s, e):
    """The entry itself is the getter / method that reads the missing
    attribute: the caller asked for something not computed yet."""
    return s.func is not None and s.func.name not in (
        "__init__", "run", "distance_metric", "make_moments")


def check(p, rep, tier):
    reads = 0
    for s in all_scenarios(p, rep):
        if s.cls is not None and abstract(p, s.cls):
            continue
        for e in s.events:
            if e.kind in ("bad_call", "bad_unpack"):
                rep.ob(False, Finding(
                    "P11.call", ewhere(e), "%s: %s" % (
                        e.get("callee", ""), e.get("why", "")),
                    "call does not fit the callee: %s (entry %s)" % (
                        e.get("why"), s.label), e.line(), chain(e)))
                continue
            if e.kind == "repocall":
                rep.ob(True)
                continue
            if e.kind == "none":
                cond = e.get("cond") or ()
                if plotting(e) or any(x.op in ("exc", "choice") for c, _ in
                                      cond for x in walk(c)):
                    continue
                rep.ob(False, Finding(
                    "P11.none", ewhere(e), e.how,
                    "%s of a value that is None%s (entry %s)" % (
                        e.how, when(cond), s.label), e.line(), chain(e)))
                continue
            if e.kind != "undef":
                continue
            reads += 1
            what, name = e.d["what"], e.d["name"]
            if what == "attr":
                if name in ("_header", "_data") or plotting(e):
                    continue
                if getter_read(s, e) and not never_assigned(p, s, e):
                    continue
            elif what == "local":
                if plotting(e) or (e.func is not None and
                                   loop_assigned(e.func, name) and
                                   varying(e.get("cond"))):
                    continue
            elif what == "key":
                if plotting(e):
                    continue
            cond = e.get("cond") or ()
            txt = when(cond)
            rep.ob(False, Finding(
                "P11." + what, ewhere(e), name,
                "%s %r is read but may not have been assigned%s (entry %s)"
                % (what, name, txt, s.label), e.line(), chain(e)))
    rep.count("undefined reads examined", reads)
    rep.at_least("functions analysed", len(rep.functions), 300)


def abstract(p, cls):
    return cls.name.startswith("StatisticBase") or cls.name.endswith("MixIn")


def never_assigned(p, s, e):
    """No method of the class assigns this attribute anywhere."""
    name = e.d["name"]
    obj = e.get("obj")
    cls = s.ip.objclass.get(obj) if obj is not None else None
    cls = cls or s.cls
    if cls is None:
        return False
    for c in p.mro(cls):
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and n.attr == name and \
                    isinstance(n.ctx, ast.Store):
                return False
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "setattr":
                return False
            if isinstance(n, ast.Constant) and n.value == name:
                return False
    # assigned from outside the class
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == name and \
                    isinstance(n.ctx, ast.Store):
                return False
    return True
