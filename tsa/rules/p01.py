"""P01: caller-owned data are never modified."""
from ..core import Finding, ewhere, chain
from ..terms import walk, ite_leaves, mk, show, leaves
from .mutation import mutations, dictlike, describe

RULE = ("memory-ownership (alias) analysis: no in-place operation (indexed "
        "store, augmented assignment, out=, in-place method, attribute "
        "store) may have a target whose memory may be that of a data "
        "argument of a public entry point")
EXPLANATION = ("Every public constructor, method, property, setter and "
               "function of the package is entered with symbolic arguments; "
               "calls are inlined, both sides of undecided branches are "
               "analysed, and for each in-place operation the set of "
               "parameters whose memory the target may share is computed "
               "(views propagate, copies/masks/arithmetic are fresh).")
ASSUMPTIONS = [
    "library calls mutate their arguments only where the library model says "
    "so (out=, in-place methods, np.copyto/put/place/...)",
    "attributes of an argument other than .data/.value/.T/.real/.header/... "
    "do not share its memory",
    "already computed statistic objects handed to a distance class are not "
    "'data' in the sense of this property",
]


def header_of(t, r):
    """is the mapping the header that belongs to the argument ``r``?"""
    return any(x.op == "attr" and x.args[1] in ("header", "_header") and
               r in leaves(x.args[0]) for x in walk(t))


def check(p, rep, tier):
    n = 0
    for s, e, live in mutations(p, rep):
        live = [(r, f) for r, f in live if r.op == "param"]
        if dictlike(e):
            # a header (alone or inside the data object) is data too
            live = [(r, f) for r, f in live if "header" in r.args[1] or
                    header_of(e.target, r)]
            if not live:
                continue
        n += 1
        if not live:
            rep.ob(True, sample="%s %s on fresh memory" % (ewhere(e), e.how))
            continue
        for r, f in live:
            rep.ob(False, Finding(
                "P01.inplace", ewhere(e),
                "%s on %s" % (e.how, describe(r, f)),
                "in-place operation on memory the caller owns: %s (entry %s)"
                % (show(e.target, 4)[:160], s.label), e.line(), chain(e)))
    rep.at_least("in-place operations", n, 150)
    rep.at_least("entry points", rep.counts["entry_points"], 400)
