"""P16: the unit in which a scale is given does not change the results."""
import ast
import multiprocessing
import os
import re
import threading
import traceback

from ..core import (Finding, fwhere, main_methods, param_doc,
                    public_methods)
from ..interp import Dead, Interp, factor, inst, qty, unit_kind
from ..project import AnalysisError
from ..results import reach
from ..terms import (FALSE, NONE, T, TRUE, const, ite, mk, param,
                     show, subst)
from .p07 import distance_classes, pre_class
from .p17 import Alike as Agree, simplify
from .p12 import DATA2, DATA3, concrete, opts
from .p13 import HAS_SC, FLAGS, header, is_data

RULE = ("self-composition over units: every class and method that takes a "
        "length, a spatial frequency or an area is interpreted with it in "
        "pixels and again, the same scale, in degrees, arcseconds, parsecs "
        "and AU; the resulting states are equal as terms once kept scales "
        "are written in pixels")
EXPLANATION = ("Conversions are evaluated through the program's own "
               "equivalencies, pixel size and distance, so a conversion left "
               "out, done twice, inverted, or by the wrong equivalency shows "
               "as a different term; the conversion methods themselves are "
               "evaluated on given scales and compared with exact values.")
ASSUMPTIONS = [
    "pixels of 1/2 degree, a distance of 1/32 kpc and units whose ratios are "
    "powers of two stand for all pixel sizes, distances and units",
    "astropy's Quantity.to, is_equivalent and products of units follow their "
    "documentation",
    "one set of scales per option; images of 64 x 80 and cubes of 32 x 64 x "
    "80 pixels, all other options arbitrary"]

# pixels per unit: 1/2 degree at 1/32 kpc (see _SIZES)
PIX = {"ang": 2.0, "arcsec": 2. ** -11, "len": 4.0, "AU": 2. ** -16,
       "vel": 0.125}
DISTANCE = qty(2. ** -5, "kpc")
NAMES = {"ang": "degrees", "arcsec": "arcseconds", "len": "parsecs",
         "AU": "astronomical units", "vel": "velocities"}
SCALE = {}
for _k, _f in PIX.items():
    SCALE[_k, "pix"] = _f
    SCALE["pix", _k] = 1 / _f
    SCALE[_k + "^2", "pix^2"] = _f ** 2
    SCALE["1/" + _k, "1/pix"] = 1 / _f
    SCALE["1/pix", "1/" + _k] = _f
LENGTH = {"lags": [4., 6., 8.], "lags2": [4., 6., 8.], "scales": [4., 6., 8.],
          "roll_lags": [-4., 0., 4.],
          "brk": 5., "radius": 6., "xlow": 6., "xhigh": 12.,
          "smoothing_radii": [4., 6., 8.]}
FREQ = {"low_cut": 0.0625, "high_cut": 0.25, "breaks": 0.125}
AREA = {"min_size": 16.}
POWER = {1: LENGTH, 2: AREA, -1: FREQ}
ALL = {n for d in POWER.values() for n in d}
LIKE = {"numpy.%s_like" % x for x in ("empty", "zeros", "ones")}
COMMON = "use_common_lags"
IMAGE, CUBE = (64, 80), (32, 64, 80)


def given(name, kind):
    """The value of an option, 6 pixels say, in a kind of unit."""
    v, f = next((d[name], f) for f, d in POWER.items() if name in d)
    if kind != "pix":
        k = PIX[kind] ** -f
        v = [x * k for x in v] if isinstance(v, list) else v * k
    return qty(v, {1: kind, 2: kind + "^2", -1: "1/" + kind}[f])


U = {k: mk("unit", k) for k in list(PIX) + ["pix"]}
# conversion, arguments, what it has to give
CONVERT = [("_to_pixel", (qty(6., "pix"),), qty(6., "pix"))] + [
    row for k, f in sorted(PIX.items()) if k != "vel" for row in (
        ("_to_pixel", (qty(6 / f, k),), qty(6., "pix")),
        ("_to_pixel", (qty([4 / f, 6 / f], k),), qty([4., 6.], "pix")),
        ("_to_pixel_freq", (qty(f / 8, "1/" + k),), qty(1 / 8, "1/pix")),
        ("_to_pixel_area", (qty(16 / f ** 2, k + "^2"),), qty(16, "pix^2")),
        ("_spatial_unit_conversion", (qty(6., "pix"), U[k]), qty(6 / f, k)),
        ("_spatial_freq_unit_conversion",
         (qty(1 / 8, "1/pix"), mk("unit", "1/" + k)),
         qty(f / 8, "1/" + k)))] + [
    ("_to_pixel_freq", (qty(1 / 8, "1/pix"),), qty(1 / 8, "1/pix")),
    ("_spatial_unit_conversion", (qty(6., "pix"), U["pix"]), qty(6., "pix")),
    ("_to_angular", (qty(6., "pix"), U["ang"]), qty(6 / PIX["ang"], "ang")),
    ("_to_angular", (qty(6., "pix"), U["arcsec"]),
     qty(6 / PIX["arcsec"], "arcsec")),
    ("_to_physical", (qty(6., "pix"), U["len"]), qty(6 / PIX["len"], "len")),
    ("_to_physical", (qty(6., "pix"), U["AU"]), qty(6 / PIX["AU"], "AU")),
    ("_to_spectral", (qty(6., "pix"), U["vel"]), qty(6 * 8., "vel")),
    ("_to_spectral", (qty(48., "vel"), U["pix"]), qty(6., "pix"))]


def conversions(p, c, init):
    d = {} if "distance" in init.params else \
        {"setter": ("distance", DISTANCE)}
    hit = p.find(c, "distance")
    obj, ip = made(p, c, init, {}, **d if hit and hit[0] == "props" else {})
    for name, args, want in CONVERT if obj is not None else ():
        hit = p.find(c, name)
        if not hit or hit[0] != "methods":
            continue
        f = hit[1]
        v = ip.enter(f, "run", obj, dict(zip(f.params[1:], args)))
        yield name, args, f, v, want, ip


_PRE = {}


def made(p, c, init, ifx, setter=None):
    given = [(HAS_SC, True)]
    if c.qual not in _PRE:
        _PRE[c.qual] = pre_class(p, c)
    if _PRE[c.qual] is not None:
        given += [(mk("call", mk("ext", "builtins.isinstance"), (
            param("init", n), mk("class", _PRE[c.qual].qual)), ()), False)
            for n in init.params]
    ip = Interp(p, assume=given)
    ip.convert = True
    ip.ext_stubs["astropy.wcs.utils.proj_plane_pixel_scales"] = mk(
        "vec", *[const(1 / PIX["ang"])] * 2)
    ip.item_stubs = [("cunit", const(0), U["ang"]),
                     ("cunit", const(1), U["ang"]), ("cunit", None, U["vel"]),
                     ("pixel_scale_matrix", None, const(1 / PIX["vel"]))]
    ip.stubs["common_scale"] = const(1.0)
    fx = {}
    for n in opts(init):
        if is_data(init, n):
            fx[n] = mk("tuple", inst("ndarray", CUBE if n in DATA3 else
                                     IMAGE if n in DATA2 else None, n),
                       header(n))
        elif n == "header":
            fx[n] = NONE
        elif n == "distance":
            fx[n] = DISTANCE
        elif n in FLAGS:
            fx[n] = FALSE
        elif none_by_default(init, n) and n in ALL:
            fx[n] = NONE
    fx.update(ifx)
    try:
        obj = ip.new_object(c, fixed=fx)
        if setter:
            ip.setattr(obj, setter[0], setter[1], c.node)
    except (AnalysisError, Dead):
        return None, ip
    return obj, ip


def state(p, c, init, ifx, method=None, mfx=None, setter=None):
    obj, ip = made(p, c, init, ifx, setter)
    if obj is None:
        return None, ip
    ms = main_methods(p, c)
    for m in ms if method in ms + [None] else ms + [method]:
        f = {n: FALSE if n in FLAGS else NONE for n in m.params
             if n in FLAGS or n in ALL and none_by_default(m, n)}
        if m is method:
            f.update(mfx)
        if ip.enter(m, "run", obj, f) is None:
            return None, ip
    memo = {}
    return {k: subst(v, lambda x: FALSE if x.op == "exc" else None, memo)
            for k, v in reach(ip, obj).items()}, ip


def in_pixels(t):
    """A state with the scales it keeps as they were given in pixels."""
    return simplify(subst(kept(t), lengths, {}), {})


def kept(t):
    if t.op in ("list", "tuple"):
        return mk(t.op, *[kept(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], kept(t.args[1]), kept(t.args[2]))
    q = factor(t)
    if q is not None:
        return mk("bin", t.args[0], *[pixels(x) or x if x is q else x
                                      for x in t.args[1:]])
    return pixels(t) or t


def lengths(t):
    """Of an array that is only measured, the length matters."""
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] in LIKE and t.args[1] and \
            t.args[1][0].op == "vec":
        return mk("call", t.args[0], (mk("vec", *[const(0.)] * len(
            t.args[1][0].args)),) + t.args[1][1:], t.args[2])
    return None


def pixels(t):
    if t.op == "qty" and (t.args[1], "pix") in SCALE:
        f = SCALE[t.args[1], "pix"]
    elif t.op == "qty" and (t.args[1], "1/pix") in SCALE:
        f = SCALE[t.args[1], "1/pix"]
    elif t.op == "qty" and (t.args[1], "pix^2") in SCALE:
        f = SCALE[t.args[1], "pix^2"]
    else:
        return None
    v = t.args[0]
    k = "1/pix" if t.args[1].startswith("1/") else \
        "pix^2" if t.args[1].endswith("^2") else "pix"
    return qty([x.args[0] * f for x in v.args] if v.op == "vec" else
               v.args[0] * f, k)


def kinds_of(t):
    """The kinds of unit a result may carry."""
    if t.op == "ite":
        return kinds_of(t.args[1]) | kinds_of(t.args[2])
    if t.op == "loop":
        return kinds_of(t.args[1]) | kinds_of(t.args[2])
    if t.op == "qty":
        return {t.args[1]}
    if t is NONE:
        return set()
    if t.op == "bin" and t.args[0] in "*/":
        k = unit_kind(t.args[2])
        if k:
            return {("1/" if t.args[0] == "/" else "") + k}
        return kinds_of(t.args[1])
    if t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "to" and t.args[1]:
        return {unit_kind(t.args[1][0]) or "?"}
    return {"?"}


def none_by_default(f, n):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[::-1], a.defaults[::-1])) + \
            list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == n:
            return isinstance(d, ast.Constant) and d.value is None
    return False


def is_scale(f, n):
    """An option that takes a length or a spatial frequency."""
    d = param_doc(f, n) or ""
    return n in ALL and d and ("Quantity" in d or
                               not re.search("float|int", d))


def uses(p, c):
    """(label, function, option, how) for each scale a class takes."""
    hit = p.find(c, "__init__")
    if not hit or hit[0] != "methods":
        return
    init = hit[1]
    for n in opts(init):
        if is_scale(init, n):
            for b in (TRUE, FALSE)[:1 + (COMMON in init.params)]:
                yield "%s(%s%s)" % (c.name, n, "" if COMMON not in init.params
                                    else ", %s=%s" % (COMMON, b.args[0])), \
                    init, n, init, lambda v, n=n, b=b: dict(
                        ifx={n: v, COMMON: b})
            h = p.find(c, n)
            if h and h[0] == "props" and "pixel radii" not in \
                    h[1].doc().lower():
                yield "%s.%s" % (c.name, n), init, n, h[1], \
                    lambda v, n=n: dict(ifx={}, setter=(n, v))
    ms = main_methods(p, c)
    ms += [f for n, (k, f) in sorted(public_methods(p, c).items())
           if k == "methods" and f not in ms]
    for m in ms:
        for n in m.params:
            if is_scale(m, n):
                yield "%s.%s(%s)" % (c.name, m.name, n), init, n, m, \
                    lambda v, n=n, m=m: dict(ifx={}, method=m, mfx={n: v})


_W = {}


def _one(c):
    p = _W["p"]
    out, seen = [], set()
    hit = p.find(c, "__init__")
    if hit and hit[0] == "methods":
        for name, args, f, v, want, ip in conversions(p, c, hit[1]):
            seen |= ip.functions_seen
            out.append((c.name + "." + name, None, fwhere(f), f.node.lineno,
                        [] if v is want else [name], "%s of %s is %s, not %s"
                        % (name, ", ".join(show(a, 2) for a in args),
                           show(v, 3)[:80] if v is not None else "refused",
                           show(want, 2))))
    for label, init, n, f, how in uses(p, c):
        a, ip = state(p, c, init, **how(given(n, "pix")))
        seen |= ip.functions_seen
        if n in ("brk", "breaks") and a is not None:
            want = "pix" if n in LENGTH else "1/pix"
            for k in sorted(a):
                if k.split(".")[-1] in ("_brk", "_brk_err"):
                    got = kinds_of(a[k])
                    out.append((label, k, fwhere(f), f.node.lineno,
                                [k] if got - {want, "?"} else [],
                                "%s instead of %s" % (", ".join(sorted(
                                    got - {"?"})), want)))
        kinds = ["ang", "arcsec"] if not c.name.startswith("VCS") else \
            ["vel"]
        if "distance" in opts(init) and "ang" in kinds:
            kinds += ["len", "AU"]
        for kind in kinds:
            b, ip = state(p, c, init, **how(given(n, kind)))
            diff, why = [], ""
            if a is None or b is None:
                out.append((label, kind, fwhere(f), f.node.lineno,
                            "refused in pixels" if a is None else "refused",
                            ""))
                continue
            for k in sorted(set(a) | set(b)):
                ag = Agree()
                x, y = a.get(k, NONE), b.get(k, NONE)
                x, y = in_pixels(x), in_pixels(y)
                if not (ag(x, y) and Agree()(y, x)):
                    diff.append(k)
                    if ag.why and not why:
                        why = "%s instead of %s" % (show(ag.why[1], 3)[:120],
                                                    show(ag.why[0], 3)[:120])
            out.append((label, kind, fwhere(f), f.node.lineno, diff, why))
    return out, seen


def _work(i):
    res, err = [], []

    def go():
        try:
            res.append(_one(_W["todo"][i]))
        except Exception:
            err.append(traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res, err


def check(p, rep, tier):
    todo = concrete(p)
    todo += [c for c in distance_classes(p) if c not in todo]
    _W.update(p=p, todo=todo)
    threading.stack_size(1 << 28)
    with multiprocessing.get_context("fork").Pool(
            min(8, os.cpu_count() or 1)) as pool:
        outs = pool.map(_work, range(len(todo)), 1)
    n = 0
    for res, err in outs:
        if err:
            raise AnalysisError(err[0])
        rows, seen = res[0]
        rep.functions |= seen
        for label, kind, where, line, diff, why in rows:
            n += 1
            if kind is None:
                rep.ob(not diff, Finding(
                    "P16.convert", where, label, why, line), why)
                continue
            if kind not in PIX:
                rep.ob(not diff, Finding(
                    "P16.break", where, "%s: %s" % (label, kind),
                    "%s: the break found is not in the unit the break was "
                    "given in (%s in %s)" % (label, kind, why), line),
                    "unit of %s after %s" % (kind, label))
                continue
            how = NAMES[kind]
            rep.ob(not diff, Finding(
                "P16.unit", where, "%s: %s" % (label, kind),
                "%s given in %s instead of pixels %s" % (
                    label, how, "is " + diff if isinstance(diff, str) else
                    "changes %s (%s)" % (", ".join(diff[:6]), why)), line),
                "%s in %s" % (label, how))
    rep.at_least("scales compared", n, 20)
