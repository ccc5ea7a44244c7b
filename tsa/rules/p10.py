"""P10: an analysis can be run again."""
from ..core import (Finding, fwhere, stat_classes, main_methods,
                    public_methods)
from ..interp import Interp
from ..results import reach
from ..project import AnalysisError
from ..terms import (walk, show, leaves, NONE, TRUE, FALSE, const, mk,
                     ite_leaves, param, subst, UNDEF)

RULE = ("the public results after run(B); run(A) are, as terms over the "
        "constructor's and the last call's arguments, the results after "
        "run(A) alone wherever the latter are defined")
EXPLANATION = (
    "Each analysis and distance is constructed with symbolic arguments; its "
    "main method is analysed from the state after construction, and again "
    "from the state after an earlier call with unrelated symbolic options. "
    "The public attributes and properties are compared as gated terms, so "
    "any dependence on what the earlier call left behind (overwritten "
    "settings, cached or stale attributes, accumulated containers) is a "
    "difference.")
ASSUMPTIONS = [
    "an option that overrides a setting kept under the same public name "
    "(e.g. radius) is a change of that setting",
    "results of optional steps that the last call did not request may be "
    "those of an earlier call",
]


# methods that change what is analysed (other data, a further mask) rather
# than analyse it
SETUP = {"input_data_header", "apply_mask"}


def undefined(t):
    return t is UNDEF or (t.op == "opaque" and t.args and
                          t.args[0] in ("undef", "dead"))


class Agree(object):
    def __init__(self, budget=20000):
        self.left = budget
        self.memo = set()
        self.why = None

    def at(self, t, c, v):
        return subst(t, lambda x: (TRUE if v else FALSE) if x is c else None)

    def __call__(self, a, b):
        if a is b or undefined(a):
            return True
        if (a.id, b.id) in self.memo:
            return True
        self.left -= 1
        if self.left < 0:
            self.why = (a, b)
            return False
        if a.op == b.op == "ite" and a.args[0] is not b.args[0] and \
                self.try_(a, b):
            r = True
        elif a.op == "ite":
            c = a.args[0]
            r = self(self.at(a.args[1], c, True), self.at(b, c, True)) and \
                self(self.at(a.args[2], c, False), self.at(b, c, False))
        elif b.op == "ite":
            r = self(a, b.args[1]) and self(a, b.args[2])
        elif a.op == b.op and len(a.args) == len(b.args) and \
                len(a.kids()) == len(b.kids()) and a.kids() and \
                self.shape(a) == self.shape(b):
            r = all(self(x, y) for x, y in zip(a.kids(), b.kids()))
        else:
            r = False
            if self.why is None:
                self.why = (a, b)
        if r:
            self.memo.add((a.id, b.id))
        return r

    def try_(self, a, b):
        """The same decision, on agreeing conditions."""
        why = self.why
        r = all(self(x, y) for x, y in zip(a.args, b.args))
        self.why = why
        return r

    def shape(self, t):
        """Arguments that are no terms."""
        if t.op == "call":
            return (len(t.args[1]), tuple(k for k, _ in t.args[2]))
        return tuple(x for x in t.args if isinstance(x, (str, int, float)))


def blanked(t, blank):
    """A result that still has the constructor's placeholder is not set."""
    if t is blank:
        return UNDEF
    if t.op == "ite":
        return mk("ite", t.args[0], blanked(t.args[1], blank),
                  blanked(t.args[2], blank))
    if blank is FALSE and t is not TRUE:
        return mk("ite", t, TRUE, UNDEF)
    return t


def settings(obs, f, scope):
    """Options that are kept under their own public name."""
    out = set()
    for n in f.params:
        q = param(scope, n)
        for t in (obs.get(n), obs.get("_" + n)):
            if t is not None and any(x is q for x in ite_leaves(t)):
                out.add(n)
    return out


def forget(t, scope, names):
    """The earlier call did not give these options."""
    qs = {param(scope, n) for n in names}
    return subst(t, lambda x: NONE if x in qs else None) if qs else t


def objects(ip, obj):
    return {k.rsplit(".", 1)[0] for k in reach(ip, obj) if "." in k}


def twice(p, rep, ip, c, m, obj, inner, untouched=False):
    """Compare m(run) with m(earlier); m(run) from the present state."""
    base = ip.st.copy()
    start = reach(ip, obj)
    v1 = ip.enter(m, "again", obj)
    if v1 is None:
        return False
    first = reach(ip, obj)
    if untouched and all(first.get(k) is t for k, t in start.items()) and \
            set(first) == set(start):
        return False
    ip.st = base.copy()
    if ip.enter(m, "earlier", obj) is None:
        return False
    v2 = ip.enter(m, "again", obj)
    who = "%s.%s" % (c.name, m.name)
    rep.ob(v2 is not None, Finding(
        "P10.again", fwhere(m), who,
        "a second call always fails", m.node.lineno))
    if v2 is None:
        return True
    again = reach(ip, obj)
    keep = settings(first, m, "again")
    for k in sorted(first):
        a, b = first[k], again.get(k)
        if "." in k and k.rsplit(".", 1)[0] not in inner:
            continue        # an object made by the call itself
        if b is None:
            continue
        blank = start.get(k)
        if blank is not None and (untouched or (
                blank.op == "const" and blank.args[0] in (None, False))):
            a = blanked(a, blank)
        b = forget(b, "earlier", keep)
        ag = Agree()
        ok = ag(a, b)
        msg = ""
        if not ok:
            dep = sorted({x.args[1] for x in leaves(b)
                          if x.op == "param" and x.args[0] == "earlier"})
            x, y = ag.why if ag.why else (a, b)
            msg = "after an earlier call, %s differs%s: %s instead " \
                "of %s" % (k, " (depends on its %s)" % ", ".join(
                    dep[:6]) if dep else "", show(y, 3)[:150],
                    show(x, 3)[:150])
        rep.ob(ok, Finding("P10.stale", fwhere(m), "%s: %s" % (
            who, k), msg, m.node.lineno),
            sample="%s: %s is the same after an earlier call" % (who, k))
    return True


def check(p, rep, tier):
    n = nm = 0
    for c in stat_classes(p):
        if c.name.startswith("StatisticBase") or c.name.endswith("MixIn"):
            continue
        mains = main_methods(p, c)
        if not mains:
            continue
        for m in mains:
            ip = Interp(p)
            try:
                obj = ip.new_object(c)
            except AnalysisError:
                break
            n += bool(twice(p, rep, ip, c, m, obj,
                            objects(ip, obj)))
            rep.saw(ip)
        ip = Interp(p)
        obj = ip.new_object(c)
        inner = objects(ip, obj)
        if ip.enter(mains[0], "run", obj) is None:
            continue
        after = ip.st.copy()
        for kind, m in public_methods(p, c).values():
            if kind != "methods" or m in mains or m.name in SETUP:
                continue
            ip.st = after.copy()
            nm += bool(twice(p, rep, ip, c, m, obj, inner, True))
        rep.saw(ip)
    rep.at_least("main methods called twice", n, 20)
    rep.at_least("other methods called twice", nm, 10)
