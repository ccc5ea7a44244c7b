"""P09: what is saved is what is loaded."""
import re

from ..core import (Finding, fwhere, stat_classes, main_methods, roots,
                    has_method, default_expr)
from ..interp import Interp
from ..project import AnalysisError
from ..terms import (walk, show, leaves, NONE, TRUE, FALSE, const, mk,
                     ite_leaves, param, subst, UNDEF)

RULE = ("the object handed to pickle.dump by save_results has, attribute for "
        "attribute, the value the analysis has (a deep copy of it), except "
        "that attributes holding the input data are None when keep_data is "
        "off; save_results leaves the analysis unchanged; load_results "
        "returns pickle.load of exactly the named file; Moments.from_fits "
        "reads every map from the file name and extension Moments.to_fits "
        "wrote it to")
EXPLANATION = ("save_results is analysed in the state after the constructor "
               "and the main method with symbolic arguments, for keep_data "
               "on and off; at the call of pickle.dump the attributes of the "
               "dumped object are compared, as terms, with those of the "
               "analysis.")
ASSUMPTIONS = ["pickle.load inverts pickle.dump and copy.deepcopy copies",
               "astropy.io.fits reads back the arrays it wrote"]

COPIES = {"copy.deepcopy", "copy.copy", "numpy.copy"}


def peel(t):
    """Without copies."""
    def fn(x):
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].args[0] in COPIES and len(x.args[1]) == 1:
            return subst(x.args[1][0], fn)
        return None
    return subst(t, fn)


def holds(t, want, depth=12):
    """Does the term denote the memory (or a plain copy) of a parameter in
    ``want``?"""
    if depth == 0:
        return False
    if roots(t) & want:
        return True
    for x in ite_leaves(t):
        if x.op == "call":
            f = x.args[0]
            if f.op == "attr" and f.args[1] in ("copy", "squeeze", "astype",
                                                "view"):
                if holds(f.args[0], want, depth - 1):
                    return True
            if f.op == "ext" and f.args[0] in (
                    "numpy.copy", "copy.deepcopy", "copy.copy",
                    "numpy.array", "numpy.asarray", "numpy.nan_to_num",
                    "numpy.squeeze") and x.args[1]:
                if holds(x.args[1][0], want, depth - 1):
                    return True
        elif x.op in ("upd", "uattr"):
            if holds(x.args[0], want, depth - 1):
                return True
        elif x.op == "augupd":
            if holds(x.args[1], want, depth - 1):
                return True
        elif x.op == "loop":
            if holds(x.args[1], want, depth - 1):
                return True
        elif x.op == "attr" and x.args[1] in ("value", "data"):
            if holds(x.args[0], want, depth - 1):
                return True
    return False


def unpicklable(t):
    for x in ite_leaves(t):
        if x.op in ("lambda", "closure", "gen", "module", "mod"):
            return x.op
        if x.op == "func" and "<locals>" in str(x.args[0]):
            return "local function"
        if x.op == "enter" and x.args[0].op == "call" and \
                x.args[0].args[0].op == "ext" and \
                x.args[0].args[0].args[0] == "builtins.open":
            return "open file"
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].args[0] == "builtins.open":
            return "open file"
    return None


def empty(t):
    """None, or never set."""
    return t is not None and all(x is NONE or x is UNDEF
                                 for x in ite_leaves(t))


def required(f):
    a = f.node.args
    names = [x.arg for x in a.args][1:]
    return [n for n in names if default_expr(f, n) is None]


def attrs(ip, ref):
    return {k: ip.snap(v) for k, v in ip.st.heap.get(
        ref.args[0], {}).items()}


def opened(t):
    """(name, mode) of the file a handle term came from."""
    if t.op == "enter":
        t = t.args[0]
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
            "builtins.open", "io.open"):
        kw = dict(t.args[2])
        a = t.args[1]
        m = a[1] if len(a) > 1 else kw.get("mode", const("r"))
        return a[0], m.args[0] if m.op == "const" else None
    return None, None


def is_dump(name):
    return name.split(".")[-1] == "dump" and "pickle" in name.lower()


def is_load(name):
    return name.split(".")[-1] == "load" and "pickle" in name.lower()


def plain(t, q):
    """The name itself, as a string."""
    if t is q:
        return True
    return t.op == "call" and t.args[0].op == "ext" and \
        t.args[0].args[0] in ("builtins.str", "os.fspath") and \
        len(t.args[1]) == 1 and plain(t.args[1][0], q)


def pieces(t):
    """A string as a list of constant and other pieces."""
    if t.op in ("bin", "augupd") and t.args[0] == "+":
        return pieces(t.args[1]) + pieces(t.args[2])
    if t.op == "fstr":
        return [y for x in t.args for y in pieces(x)]
    return [t]


def names_ok(t, q):
    """Every file name on every path: the given name, or that + '.pkl'."""
    for x in ite_leaves(t):
        ps = [y for y in pieces(x) if y is not const("")]
        if not ps or not plain(ps[0], q):
            return False
        if len(ps) == 2 and ps[1] is const(".pkl"):
            continue
        if len(ps) != 1:
            return False
    return True


def pickles(p, rep):
    n = 0
    for c in stat_classes(p):
        if not has_method(p, c, "save_results"):
            continue
        hit = p.find(c, "__init__")
        init = hit[1] if hit and hit[0] == "methods" else None
        if init is None or c.name.startswith("StatisticBase") or \
                c.name.endswith("MixIn"):
            continue
        ip = Interp(p)
        try:
            obj = ip.new_object(c)
        except AnalysisError:
            continue
        for m in main_methods(p, c):
            ip.enter(m, "run", obj)
        save = p.find(c, "save_results")[1]
        load = p.find(c, "load_results")[1]
        n += 1
        rep.saw(ip)
        data = frozenset(param("init", x) for x in required(init))
        base = ip.st.copy()
        kd = "keep_data" in save.params
        for keep in ((TRUE, FALSE) if kd else (None,)):
            ip.st = base.copy()
            dumps = []

            def hook(ip, name, recv, args, kw, node):
                if is_dump(name):
                    k = dict(kw)
                    o = args[0] if args else k.get("obj", NONE)
                    f = args[1] if len(args) > 1 else k.get("file", NONE)
                    r = ip.resolve(o)
                    dumps.append((r, attrs(ip, r) if r.op == "ref" else None,
                                  f, node))
            before = attrs(ip, obj)
            ip.on_call = hook
            v = ip.enter(save, "save", obj,
                         {"keep_data": keep} if keep is not None else None)
            ip.on_call = None
            who = "%s.save_results(keep_data=%s)" % (
                c.name, keep.args[0] if keep is not None else "-")

            def ob(ok, rule, what, msg):
                rep.ob(ok, Finding(rule, fwhere(save), "%s %s" % (
                    who, what), msg, save.node.lineno),
                    sample="%s: %s" % (who, what))
            ob(v is not None, "P09.save", "returns",
               "save_results always fails")
            if v is None:
                continue
            after = attrs(ip, obj)
            for k in sorted(set(before) | set(after)):
                ob(before.get(k) is after.get(k), "P09.unchanged", k,
                   "saving changes the attribute %s of the analysis" % k)
            ob(len(dumps) == 1, "P09.dump", "one object written",
               "%d objects are pickled" % len(dumps))
            if not dumps:
                continue
            r, at, f, node = dumps[0]
            ob(at is not None and ip.objclass.get(r) is c, "P09.dump",
               "object of the class",
               "what is pickled is not an object of the class: %s" %
               show(r, 2))
            nm, mode = opened(f)
            ob(nm is not None and mode is not None and "w" in mode and
               "b" in mode, "P09.file", "binary file opened for writing",
               "the file is opened with mode %r" % mode)
            if nm is not None:
                ob(names_ok(nm, param("save", "output_name")), "P09.file",
                   "file name", "the file name is %s" % show(nm, 4))
            if at is None:
                continue
            for k in sorted(set(at) | set(before)):
                a, b = at.get(k), before.get(k)
                if b is None:
                    ob(False, "P09.extra", k,
                       "the saved object has an attribute %s that the "
                       "analysis has not" % k)
                    continue
                if a is b:
                    ob(keep is not FALSE or "header" in k or
                       not holds(b, data), "P09.data", k,
                       "the input data in %s are saved although keep_data "
                       "is off" % k)
                    continue
                if keep is FALSE and empty(a):
                    ob(k == "_data" or ("header" not in k and
                                        holds(b, data)), "P09.lost", k,
                       "the result %s is not saved" % k)
                    continue
                if keep is FALSE and "header" not in k:
                    ob(not holds(b, data), "P09.data", k,
                       "the input data in %s are saved although keep_data "
                       "is off" % k)
                ob(a is not None and (a is b or peel(a) is peel(b)),
                   "P09.lost" if a is None or a is NONE else "P09.differs",
                   k, "the saved value of %s is %s instead of the "
                   "analysis's" % (k, show(a, 3)[:150] if a is not None
                                   else "missing"))
                u = unpicklable(b)
                ob(u is None, "P09.pickle", k,
                   "%s holds a %s, which cannot be pickled" % (k, u))
        ip.st = base.copy()
        v = ip.enter(load, "load", mk("class", c.qual)
                     if load.kind == "classmethod" else
                     (None if load.kind == "staticmethod" else obj))
        q = param("load", load.params[0] if load.kind == "staticmethod"
                  else load.params[1])
        ok = False
        why = show(v, 4)[:200] if v is not None else "an error"
        if v is not None:
            for x in ite_leaves(ip.snap(v)):
                ok = False
                if x.op == "call" and x.args[0].op == "ext" and \
                        is_load(x.args[0].args[0]) and x.args[1]:
                    nm, mode = opened(x.args[1][0])
                    ok = nm is q and mode is not None and "b" in mode and \
                        "r" in mode
                if not ok:
                    why = show(x, 4)[:200]
                    break
        rep.ob(ok, Finding("P09.load", fwhere(load), "%s.load_results" %
                           c.name, "load_results returns %s" % why,
                           load.node.lineno),
               sample="%s.load_results returns pickle.load of the file" %
               c.name)
    rep.at_least("classes with save_results", n, 12)


# ---------------------------------------------------------------- Moments
def words(t):
    """The constant parts of a file name, joined."""
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], str) else ""
    if t.op in ("bin", "augupd") and t.args[0] == "+":
        return words(t.args[1]) + words(t.args[2])
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] == "os.path.join":
        return words(t.args[1][-1])
    if t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "format":
        return re.sub(r"\{[^}]*\}", "\0", words(t.args[0].args[0])).split(
            "\0")[-1]
    if t.op == "fstr":
        w = ""
        for x in t.args:
            w = w + words(x) if hasattr(x, "op") and x.op == "const" else ""
        return w
    if t.op == "ite":
        ws = {words(x) for x in ite_leaves(t)}
        return ws.pop() if len(ws) == 1 else "?"
    return ""


def plain_array(t):
    """Leaves of an array term without .value."""
    out = set()
    for x in ite_leaves(t):
        while x.op == "attr" and x.args[1] == "value":
            x = x.args[0]
        for y in ite_leaves(x):
            out.add(y)
    return out


def strip_open(t):
    """fits.open(name)[k].data -> (name, k)"""
    if t.op == "attr" and t.args[1] == "data" and t.args[0].op == "sub":
        h, k = t.args[0].args
        if h.op == "enter":
            h = h.args[0]
        if h.op == "call" and h.args[1] and k.op == "const" and \
                h.args[0].op == "ext" and h.args[0].args[0].endswith(
                    "fits.open"):
            return h.args[1][0], k.args[0]
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0].endswith("fits.getdata") and t.args[1]:
        kw = dict(t.args[2])
        k = t.args[1][1] if len(t.args[1]) > 1 else kw.get("ext", const(0))
        return t.args[1][0], k.args[0] if k.op == "const" else None
    return None, None


def moments(p, rep):
    cs = [c for c in stat_classes(p) if has_method(p, c, "to_fits") and
          has_method(p, c, "from_fits")]
    for c in cs:
        ip = Interp(p, assume=[(mk("cmp", "is", param("tf", "save_name"),
                                   NONE), False)])
        obj = ip.new_object(c)
        for m in ("make_moments", "make_moment_errors"):
            if has_method(p, c, m):
                ip.enter(p.find(c, m)[1], m, obj)
        at = attrs(ip, obj)
        to = p.find(c, "to_fits")[1]
        fr = p.find(c, "from_fits")[1]
        written = []

        def hook(ip, name, recv, args, kw, node):
            if name.split(".")[-1] != "writeto" or recv is None:
                return
            written.append((ip.snap(recv), args[0] if args else
                            dict(kw).get("fileobj", NONE)))
        ip.on_call = hook
        v = ip.enter(to, "tf", obj)
        ip.on_call = None
        where = {}
        for r, nm in written:
            hdus = []
            if r.op == "call" and r.args[0].op == "ext" and \
                    r.args[0].args[0].endswith("HDUList") and r.args[1] and \
                    r.args[1][0].op == "list":
                hdus = list(r.args[1][0].args)
            elif r.op == "call":
                hdus = [r]
            if "save_name" not in [x.args[1] for x in leaves(nm)
                                   if x.op == "param"]:
                rep.add(Finding("P09.fits", fwhere(to), "file name",
                                "a map is written to %s" % show(nm, 3),
                                to.node.lineno))
            for i, h in enumerate(hdus):
                if h.op == "call" and h.args[1]:
                    for x in plain_array(h.args[1][0]):
                        where.setdefault(x, set()).add((words(nm), i))
        v = ip.enter(fr, "ff", None)
        if v is None or v.op != "ref":
            rep.ob(False, Finding("P09.fits", fwhere(fr), "returns",
                                  "from_fits returns no object",
                                  fr.node.lineno))
            continue
        got = attrs(ip, v)
        rep.saw(ip)
        n = 0
        for k, t in sorted(got.items()):
            src = [strip_open(x) for x in ite_leaves(t)]
            src = [s for s in src if s[0] is not None]
            if not src:
                continue
            n += 1
            want = set()
            for x in plain_array(at.get(k, NONE)):
                want |= where.get(x, set())
            have = set()
            for nm, e in src:
                for x in ite_leaves(nm):
                    if words(x):
                        have.add((words(x), e))
            exts = {e for _, e in src}
            ok = bool(want) and have == want and exts == {
                e for _, e in want}
            rep.ob(ok, Finding(
                "P09.fits", fwhere(fr), k,
                "%s.to_fits writes %s to %s but from_fits reads it from %s"
                % (c.name, k, sorted(want), sorted(have, key=str)),
                fr.node.lineno),
                sample="%s: %s written to and read from %s" % (
                    c.name, k, sorted(want)))
        rep.at_least("maps read by from_fits", n, 6)
    rep.at_least("classes with to_fits/from_fits", len(cs), 1)


def check(p, rep, tier):
    pickles(p, rep)
    moments(p, rep)
