"""Observable results of the public entry points as terms."""
from .core import (stat_classes, public_methods, public_functions,
                   main_methods, is_public, has_method)
from .interp import Interp
from .project import AnalysisError
from .results import value_map, _refs
from .terms import leaves, walk, mk, UNDEF


def observables(ip, obj, depth=2, prefix=""):
    """{public path: term}: public attributes and properties of ``obj``, and
    of the repository objects found in its public attributes."""
    p = ip.p
    cls = ip.objclass[obj]
    out = {}
    heap = ip.st.heap.get(obj.args[0], {})
    names = [a for a in heap if is_public(a)]
    for n, (k, f) in public_methods(p, cls).items():
        if k == "props" and n not in names:
            names.append(n)
    for n in sorted(names):
        if n in heap:
            t = heap[n]
        else:
            f = public_methods(p, cls)[n][1]
            st = ip.st.copy()
            nev = len(ip.events)
            oc = ip.on_call
            ip.on_call = None
            t = ip.enter(f, "prop", obj)
            ip.on_call = oc
            del ip.events[nev:]
            if t is not None:
                # containers must be read in the state the getter left
                t2 = ip.snap(t)
                refs = [x for x in _refs(ip, t) if x in ip.objclass]
            ip.st = st
            if t is None:
                continue
            out[prefix + n] = t2
            if depth > 0:
                for r in refs:
                    if r is not obj:
                        out.update(observables(ip, r, depth - 1,
                                               prefix + n + "."))
            continue
        out[prefix + n] = ip.snap(t)
        if depth > 0:
            for r in _refs(ip, t):
                if r in ip.objclass and r is not obj:
                    out.update(observables(ip, r, depth - 1,
                                           prefix + n + "."))
    return out


class Entry(object):
    def __init__(self, who, cls, func, ip, obj, scope, obs, value, events):
        self.who = who
        self.cls = cls
        self.func = func
        self.ip = ip
        self.obj = obj
        self.scope = scope
        self.obs = obs
        self.value = value
        self.events = events


def entries(p, rep=None, want=None, fix=None, fix_init=None, methods=True,
            props=True):
    """One Entry per constructor, main method, other public method and public
    function, each with the observables after it."""
    fx = fix or (lambda f: None)
    for c in stat_classes(p):
        if want is not None and c.name not in want:
            continue
        if c.name.startswith("StatisticBase") or c.name.endswith("MixIn"):
            continue
        hit = p.find(c, "__init__")
        init = hit[1] if hit and hit[0] == "methods" else None
        ip = Interp(p)
        try:
            obj = ip.new_object(c, fixed=(fix_init or fx)(init)
                                if init else None)
        except AnalysisError:
            continue
        if init is not None:
            yield Entry(c.name, c, init, ip, obj, "init",
                        observables(ip, obj), None, list(ip.events))
        mains = main_methods(p, c)
        for m in mains:
            n0 = len(ip.events)
            v = ip.enter(m, "run", obj, fx(m))
            if v is None:
                continue
            evs = ip.events[n0:]
            yield Entry("%s.%s" % (c.name, m.name), c, m, ip, obj, "run",
                        observables(ip, obj), v, evs)
        base = ip.st.copy()
        if rep is not None:
            rep.saw(ip)
        if not methods:
            continue
        for n, (k, f) in sorted(public_methods(p, c).items()):
            if f in mains or k != "methods":
                continue
            ip.st = base.copy()
            n0 = len(ip.events)
            ref = mk("class", c.qual) if f.kind == "classmethod" else obj
            v = ip.enter(f, "m", ref, fx(f))
            if v is None:
                continue
            evs = ip.events[n0:]
            obs = observables(ip, obj)
            obs.update(value_map(ip, v))
            yield Entry("%s.%s" % (c.name, n), c, f, ip, obj, "m", obs, v,
                        evs)
        ip.st = base
    if not methods:
        return
    for f in public_functions(p):
        ip = Interp(p)
        v = ip.enter(f, "arg", None, fx(f))
        if v is None:
            continue
        if rep is not None:
            rep.saw(ip)
        yield Entry(f.name, None, f, ip, None, "arg", value_map(ip, v), v,
                    list(ip.events))
