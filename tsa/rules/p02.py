"""P02: option mappings and shared defaults are never modified."""
import re

from ..core import Finding, ewhere, chain, param_doc
from ..terms import mk, show, walk
from .mutation import mutations, dictlike, describe

ISINSTANCE = mk("ext", "builtins.isinstance")
RULE = ("ownership analysis of containers: no store / deletion / pop / "
        "update / append may have a target that is an argument of a public "
        "entry point, something nested in one, a mutable default value or a "
        "module-level container")
EXPLANATION = ("Every public constructor, method, property, setter and "
               "function of the package is entered with symbolic arguments; "
               "dictionaries and lists are heap objects with an owner "
               "(fresh, **kwargs of the callee, caller's argument, default "
               "value, module level); a shallow copy makes the outer "
               "container fresh and keeps the inner ones the caller's.")
ASSUMPTIONS = [
    "library calls do not modify mappings passed to them",
]


def listlike(e, r, f):
    """the argument is documented, or known on this path, to be a list"""
    if f is not None and re.search(r"\blist\b|\bdict|kwargs",
                                   param_doc(f, r.args[1]), re.I):
        return True
    return any(v and c.op == "call" and c.args[0] is ISINSTANCE and
               c.args[1][0] is r and any(
                   x.op == "ext" and x.args[0] in ("builtins.list",
                                                   "builtins.dict")
                   for x in walk(c.args[1][1]))
               for c, v in e.facts.items())


def check(p, rep, tier):
    n = 0
    for s, e, live in mutations(p, rep):
        if dictlike(e):
            bad = live
        else:
            bad = [(r, f) for r, f in live if r.op != "param" or
                   listlike(e, r, f)]
            if not bad and e.target.op != "ref":
                continue
        n += 1
        if not bad:
            rep.ob(True, sample="%s %s on own container" % (ewhere(e),
                                                            e.how))
            continue
        for r, f in bad:
            rep.ob(False, Finding(
                "P02.option", ewhere(e),
                "%s %s on %s" % (e.how, show(e.idx, 2), describe(r, f)),
                "modifies a container it does not own (entry %s)" % s.label,
                e.line(), chain(e)))
    rep.at_least("container updates", n, 60)
