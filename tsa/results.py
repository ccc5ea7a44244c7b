"""What a caller can observe of an analysed object: every attribute reachable
from it, as terms over the arguments."""
from .terms import T, mk, subst, NONE
from .interp import Interp


def reach(ip, obj, skip=()):
    """{path: term} for the attributes of ``obj`` and of the repository
    objects it holds (containers are replaced by their contents)."""
    out, seen = {}, set()

    def obj_of(t):
        return t.op == "ref" and t in ip.objclass

    def go(ref, path, depth):
        if ref.id in seen or depth > 4:
            return
        seen.add(ref.id)
        for a, t in sorted(ip.st.heap.get(ref.args[0], {}).items()):
            if a in skip:
                continue
            q = path + "." + a if path else a
            sub = [x for x in _refs(ip, t) if obj_of(x)]
            out[q] = ip.snap(t)
            for x in sub:
                go(x, q, depth + 1)
    go(obj, "", 0)
    return out


def _refs(ip, t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ref":
            yield x
            v = ip.val(x)
            if v is not x:
                todo.append(v)
        elif x.op in ("ite", "tuple", "list", "loop", "mu", "append"):
            todo += x.kids()


def value_map(ip, v):
    """Return value -> {path: term}"""
    out = {"<return>": ip.snap(v)}
    for r in _refs(ip, v):
        if r in ip.objclass:
            for k, t in reach(ip, r).items():
                out["<return>." + k] = t
    return out
