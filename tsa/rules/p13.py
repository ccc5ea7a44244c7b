"""P13: the form in which data are passed does not matter."""
import multiprocessing
import os
import threading

from ..core import Finding, fwhere, main_methods, param_doc
from ..interp import Interp, inst
from ..project import AnalysisError
from ..results import reach
from ..terms import FALSE, NONE, const, mk, show, subst, walk
from .p04 import FLAGS
from .p10 import Agree
from .p12 import DATA2, DATA3, concrete, opts

RULE = ("self-composition over the form of a data argument: every attribute "
        "after construction and the main method is, as a term over the "
        "values and the header, the same for each accepted form")
EXPLANATION = (
    "Each analysis and distance is abstractly interpreted once per accepted "
    "form of each data or weights argument (primary HDU, image HDU, tuple "
    "and list of array and header, array with the header apart, "
    "spectral-cube objects) with one symbolic value array and one symbolic "
    "header behind all of them; the resulting state is compared term by "
    "term with that of the (array, header) tuple.")
ASSUMPTIONS = [
    "an HDU's .data and .header, and a spectral-cube object's values and "
    ".header, are the array and header the tuple holds",
    "spectral_cube is installed",
    "no library call fails for one form and not for another",
]


HAS_SC = mk("global", "turbustat.io.input_base", "HAS_SC")


def is_data(f, n):
    doc = param_doc(f, n) or ""
    return "dtypes" in doc or (not doc and (n in DATA2 or n in DATA3))


def header(n):
    return mk("param", "fmt", n + ".header")


def forms(n, own_header):
    """(description, value, value of the header option, the equivalent
    tuple's array)"""
    a = inst("ndarray", None, n)
    yield "PrimaryHDU", inst("HDU", None, n), NONE, a
    yield "ImageHDU", inst("ImageHDU", None, n), NONE, a
    yield "list", mk("list", a, header(n)), NONE, a
    if own_header:
        yield "array and header=", a, header(n), a
    if n.rstrip("12") == "weights":
        yield "array", a, NONE, a
    for k in ("Projection", "Slice"):
        q = inst(k, None, n)
        yield k, q, NONE, q
    yield "SpectralCube", inst("SpectralCube", None, n), NONE, \
        inst("Projection", None, n)


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def names(t):
    """The data arguments that a term is made from."""
    out = set()
    for x in walk(t):
        if x.op == "inst" and len(x.args) > 2 and x.args[2]:
            out.add(x.args[2])
    return out


def headers(st):
    """Objects in a state that lost their header or have another data set's:
    (attribute, what)."""
    for k in sorted(st):
        pre, _, a = k.rpartition(".")
        if a != "_header":
            continue
        pre = pre + "." if pre else ""
        if st.get(pre + "need_header_flag") is FALSE:
            continue
        data = names(st[pre + "_data"]) if pre + "_data" in st else set()
        bad = ""
        for x in leaves(st[k]):
            if x is NONE and data:
                bad = "None"
            elif x.op == "param" and x.args[0] == "fmt" and data and \
                    x.args[1][:-len(".header")] not in data:
                bad = "that of " + x.args[1][:-len(".header")]
        yield k, bad, bool(data)


def state(p, c, init, fixed):
    ip = Interp(p, assume=[(HAS_SC, True)])
    fx = {n: mk("tuple", inst("ndarray", None, n), header(n))
          for n in opts(init) if is_data(init, n)}
    for n in opts(init):
        if n == "header":
            fx[n] = NONE
        elif n in FLAGS:
            fx[n] = FALSE
    fx.update(fixed)
    try:
        obj = ip.new_object(c, fixed=fx)
    except AnalysisError:
        return None, ip
    for m in main_methods(p, c):
        if ip.enter(m, "run", obj, {n: FALSE for n in m.params
                                    if n in FLAGS}) is None:
            return None, ip
    memo = {}
    return {k: subst(v, lambda x: FALSE if x.op == "exc" else None, memo)
            for k, v in reach(ip, obj).items()}, ip


_W = {}


def _one(c):
    p = _W["p"]
    out = []
    hit = p.find(c, "__init__")
    if not hit or hit[0] != "methods":
        return out, set(), 0, None
    init = hit[1]
    seen, br = set(), 0
    takes = opts(init)
    heads = {}
    for n in takes:
        if not is_data(init, n):
            continue
        own = "header" in takes and n in (
            "img", "data", "cube", "array", "centroid")
        refs = {}
        for kind, v, hdr, arr in forms(n, own):
            doc = "2D" if n in DATA2 else "3D"
            if kind == "SpectralCube" and n not in DATA3:
                continue
            if kind in ("Projection", "Slice") and n in DATA3:
                continue
            if arr not in refs:
                refs[arr], ip = state(p, c, init,
                                      {n: mk("tuple", arr, header(n))})
                seen |= ip.functions_seen
                if kind == "PrimaryHDU" and refs[arr] is not None:
                    heads.update((k, bad) for k, bad, ok in
                                 headers(refs[arr]) if ok)
            a = refs[arr]
            fx = {n: v}
            if own:
                fx["header"] = hdr
            b, ip = state(p, c, init, fx)
            br += ip.branches
            if a is None or b is None:
                out.append((c.name, fwhere(init), n, kind,
                            None if a is None else "refused",
                            init.node.lineno, 0, ""))
                continue
            diff, why = [], ""
            for k in sorted(set(a) | set(b)):
                ag = Agree()
                x, y = a.get(k, const(None)), b.get(k, const(None))
                if not (ag(x, y) and Agree()(y, x)):
                    diff.append(k)
                    if ag.why and not why:
                        why = "%s instead of %s" % (show(ag.why[1], 3)[:120],
                                                    show(ag.why[0], 3)[:120])
            out.append((c.name, fwhere(init), n, kind, diff,
                        init.node.lineno, len(a), why))
    return out, seen, br, (c.name, fwhere(init), init.node.lineno, heads)


def _work(i):
    res, err = [], []

    def go():
        try:
            res.append(_one(_W["todo"][i]))
        except Exception as e:
            import traceback
            err.append(traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res, err


def check(p, rep, tier):
    todo = concrete(p)
    _W.update(p=p, todo=todo)
    threading.stack_size(1 << 28)
    with multiprocessing.get_context("fork").Pool(
            min(8, os.cpu_count() or 1)) as pool:
        outs = pool.map(_work, range(len(todo)), 1)
    n = nh = 0
    for res, err in outs:
        if err:
            raise AnalysisError(err[0])
        for rows, seen, br, hd in res:
            rep.functions |= seen
            if hd:
                for k, bad in sorted(hd[3].items()):
                    nh += 1
                    rep.ob(not bad, Finding(
                        "P13.header", hd[1], "%s: %s" % (hd[0], k),
                        "the header that came with the data is not kept: "
                        "%s is %s" % (k, bad), hd[2]),
                        "%s: header of %s" % (hd[0], k))
            for cls, where, opt, kind, diff, line, size, why in rows:
                if diff is None:
                    continue
                n += 1
                if diff == "refused":
                    rep.ob(False, Finding(
                        "P13.refused", where, "%s(%s): %s" % (cls, opt, kind),
                        "%s given as %s fails on every path although the "
                        "tuple does not" % (opt, kind), line))
                    continue
                rep.count("attributes compared", size)
                rep.ob(not diff, Finding(
                    "P13.form", where, "%s(%s): %s" % (cls, opt, kind),
                    "%s differ%s when %s is given as %s (%s)" % (
                        ", ".join(diff[:6]), "s" if len(diff) == 1 else "",
                        opt, kind, why), line),
                    "%s: %s as %s" % (cls, opt, kind))
    rep.at_least("forms compared", n, 100)
    rep.at_least("headers followed", nh, 20)
