"""P06: every option the caller sets takes effect."""
import json
import os

from ..core import Finding, ewhere, fwhere, chain, is_public
from ..observe import entries
from ..terms import (FALSE, NONE, T, const, leaves, mk, param, subst, walk)
from .p04 import FLAGS, VALUES, STYLE

RULE = ("dataflow from every parameter: (a) it reaches a result, a condition "
        "or a library call of its entry point; (b) it reaches each result it "
        "is specified to control (tsa/data/influence.json, public names "
        "only); (c) where a method hands its work to another with an option "
        "of the same name, the option is handed on")
EXPLANATION = (
    "Every constructor, run/distance_metric, public method and public "
    "function is abstractly interpreted with symbolic arguments; results "
    "(return value, public attributes and properties, also of the objects "
    "held in them) are terms over the arguments, so the set of arguments a "
    "result depends on is the set of leaves of its term.")
ASSUMPTIONS = [
    "signatures fixed by a library's callback protocol (np.pad functions, "
    "astropy models) are not options",
]
TABLE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "data", "influence.json")
MODES = TABLE.replace("influence", "influence_modes")
CALLBACKS = ("padwith",)
OBS = {}
EXEC = set(FLAGS) | set(VALUES) | set(STYLE) | {"pyfftw_kwargs"}
OUTPUT_ONLY = {"unit", "xunit"}


def _terms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in _terms(y):
                yield z
    elif isinstance(x, dict):
        for y in x.values():
            for z in _terms(y):
                yield z


def names_of(en):
    names = list(en.func.params)
    if en.cls is not None and en.func.kind != "staticmethod":
        names = names[1:]
    return names


def model_class(p, c):
    """astropy models / kernels: parameters are class attributes"""
    if c is None:
        return False
    for k in p.mro(c):
        for b in k.ext_bases:
            if str(b).split(".")[-1].startswith("Fittable"):
                return True
    return False


def modes(en, scopes):
    """ways of setting one option that the code distinguishes"""
    out = set()
    seen = set()

    def cond(c):
        if c.id in seen:
            return
        seen.add(c.id)
        if c.op in ("not", "and", "or"):
            for x in c.args:
                cond(x)
        elif c.op == "cmp" and c.args[0] in ("==", "is") and \
                c.args[1].op == "param" and c.args[2].op == "const":
            v = c.args[2].args[0]
            if isinstance(v, str) or v is None:
                out.add((c.args[1], v))
                if v is None:
                    out.add((c.args[1], "<given>"))
        elif c.op == "param":
            out.add((c, True))
            out.add((c, False))
    for k, t in en.obs.items():
        for x in walk(t):
            if x.op == "ite":
                cond(x.args[0])
    return {"%s%s=%s" % ("" if q.args[0] == en.scope else "init:",
                         q.args[1], v): (q, v) for q, v in out
            if q.args[0] in scopes and q.args[1] not in EXEC}


def in_mode(q, v):
    memo = {}
    if v == "<given>":
        c = mk("cmp", "is", q, NONE)
        return lambda t: subst(t, lambda x: FALSE if x is c else None, memo)
    return lambda t: subst(t, lambda x: const(v) if x is q else None, memo)


def by_option(en, scopes, through=None):
    by = {}
    for k, t in en.obs.items():
        if any(not is_public(x) for x in k.split(".") if x != "<return>"):
            continue
        for q in leaves(through(t) if through else t):
            if q.op == "param" and q.args[0] in scopes and \
                    q.args[1] not in EXEC:
                by.setdefault(q.args[1] if q.args[0] == en.scope else
                              "init:" + q.args[1], set()).add(k)
    return by


def collect(p, rep=None, each=None, want=None):
    """{entry: {param: sorted observables}}, [(entry, param) without any],
    {entry: {mode: {param: observables it does not reach in that mode}}}"""
    table, dead, cond = {}, [], {}
    for en in entries(p, rep):
        if each is not None:
            each(en)
        if any(en.func.name.startswith(c) for c in CALLBACKS):
            continue
        if en.func.node.args.vararg is not None and \
                en.func.node.args.kwarg is not None:
            continue            # old names that pass everything on
        if model_class(p, en.cls):
            continue
        scopes = {"init", "run"} if en.scope == "run" else {en.scope}
        OBS[en.who] = set(en.obs)
        t = by_option(en, scopes)
        table[en.who] = {q: sorted(ks) for q, ks in t.items()}
        ms = modes(en, scopes)
        cond[en.who] = {}
        for m in (sorted(ms) if want is None else want.get(en.who, ())):
            if m not in ms:
                continue
            now = by_option(en, scopes, in_mode(*ms[m]))
            cond[en.who][m] = {
                q: sorted(ks - now.get(q, set())) for q, ks in t.items()
                if ks - now.get(q, set())}
        infl = set()
        for tm in en.obs.values():
            infl |= leaves(tm)
        for e in en.events:
            if e.kind in ("repocall", "construct"):
                continue
            for tm in _terms(list(e.d.values())):
                infl |= leaves(tm)
            for c in e.facts:
                infl |= leaves(c)
        for n in names_of(en):
            dead.append((en, n, param(en.scope, n) in infl))
    return table, dead, cond


def influenced(ip, x, srcs, heap, depth=0, seen=None):
    """Does value ``x`` (or an attribute of the object it is) depend on one
    of the terms/leaves ``srcs``?"""
    seen = set() if seen is None else seen
    for y in walk(x):
        if y.id in seen:
            continue
        seen.add(y.id)
        if y in srcs:
            return True
        if y.op == "ref" and depth < 3:
            for v in heap.get(y.args[0], {}).values():
                if isinstance(v, T) and influenced(ip, v, srcs, heap,
                                                   depth + 1, seen):
                    return True
    return False


def forwarding(rep, en, seen):
    """(c)"""
    calls = [e for e in en.events if e.kind == "repocall" and e.get("bound")]
    by_obj = {}
    for e in calls:
        a = e.args[0] if e.args else None
        if a is not None and a.op == "ref":
            by_obj.setdefault(a, []).append(e)
    for e in calls:
        caller = e.func
        if caller is None or e.callee.name.startswith("plot"):
            continue
        for n in e.left:
            if n not in caller.params or n in OUTPUT_ONLY or n in FLAGS or \
                    n in STYLE or n in VALUES:
                continue
            key = (caller.qual, e.callee.qual, n, e.line())
            if key in seen:
                continue
            cur = e.d.get("caller", {}).get(n)
            if cur is None:
                continue
            srcs = {x for x in walk(cur) if x.op == "param"}
            if not srcs:
                continue        # this call path leaves it at its default
            seen.add(key)
            group = [e]
            if e.callee.name == "__init__" and e.args:
                group = by_obj.get(e.args[0], [e])
            ok = any(influenced(en.ip, v, srcs, c.d.get("heap", {}))
                     for c in group for v in c.d["bound"].values())
            rep.ob(ok, Finding(
                "P06.forward", fwhere(caller),
                "%s -> %s" % (n, e.callee.name),
                "the option %r is left at its default in this call, so the "
                "caller's setting has no effect on it" % n, e.line(),
                chain(e)), "%s passes on %s" % (fwhere(caller), n))


def check(p, rep, tier):
    seen = set()
    msp = json.load(open(MODES))
    table, dead, cond = collect(p, rep, lambda en: forwarding(rep, en, seen),
                                msp)
    for en, n, ok in dead:
        rep.ob(ok, Finding(
            "P06.unused", fwhere(en.func), "%s: %s" % (en.who, n),
            "the option %r influences no result, condition or library call"
            % n, en.func.node.lineno),
            "%s: %s reaches its results" % (en.who, n))
    rep.at_least("parameters", len(dead), 500)
    spec = json.load(open(TABLE))
    n = 0
    for who, t in sorted(spec.items()):
        if who not in table:
            continue
        now = {}
        for q, ks in table[who].items():
            for k in ks:
                now.setdefault(k, set()).add(q)
        for q, ks in sorted(t.items()):
            lost = []
            for k in ks:
                if k not in OBS[who]:
                    continue
                n += 1
                ok = q in now.get(k, ())
                rep.ob(ok, sample="%s: %s depends on %s" % (who, k, q))
                if not ok:
                    lost.append(k)
            if lost:
                rep.add(Finding(
                    "P06.influence", who, q,
                    "%s no longer depend%s on the option %r" % (
                        ", ".join(lost[:8]), "s" if len(lost) == 1 else "",
                        q), 0))
    rep.at_least("option/result dependences", n, 1000)
    nm = 0
    for who, ms in sorted(msp.items()):
        if who not in table:
            continue
        for m, without in sorted(ms.items()):
            now = cond[who].get(m)
            if now is None:
                continue
            for q, ks in sorted(table[who].items()):
                nm += 1
                ref = set(spec.get(who, {}).get(q, ()))
                lost = sorted((set(now.get(q, ())) & ref) -
                              set(without.get(q, ())))
                rep.ob(not lost, Finding(
                    "P06.mode", who, "%s with %s" % (q, m),
                    "with %s, %s no longer depend%s on the option %r" % (
                        m, ", ".join(lost[:8]), "s" if len(lost) == 1
                        else "", q), 0),
                    "%s: %s with %s" % (who, q, m))
    rep.at_least("options per setting of another", nm, 1000)
