"""P05: figures and files go exactly where the caller asked."""
from ..core import (Finding, ewhere, fwhere, chain, all_scenarios,
                    stat_classes, public_methods, public_functions,
                    main_methods, is_public)
from ..interp import Interp
from ..project import AnalysisError
from ..terms import (walk, show, leaves, NONE, TRUE, FALSE, const, mk, ite,
                     ite_leaves, param)

RULE = ("typestate of the figure on every path of every entry point with a "
        "save_name: without a name the path ends shown and nothing is "
        "written; with a name it is (save to that name, close)+ and never "
        "shown; with plotting off there is no figure call at all.  Every "
        "file written anywhere has a name derived from an argument")
EXPLANATION = ("The sequence of savefig/close/show calls is carried through "
               "the analysed program state (joined at merges), so the final "
               "state lists the sequence of every path of the entry point, "
               "for the three modes save_name given / not given / plotting "
               "disabled; other options stay symbolic.")
ASSUMPTIONS = ["matplotlib figures are only saved, shown or closed through "
               "savefig/show/close"]

_FLAGS_OFF = ("fit_verbose", "debug")


def op_of(name, recv):
    short = name.split(".")[-1]
    if name.startswith("matplotlib.") or name.startswith("."):
        if short == "savefig":
            return "save"
        if short == "show" and (name.startswith("matplotlib.") or True):
            return "show"
        if short == "close" and name.startswith("matplotlib."):
            return "close"
        if short == "imsave":
            return "save"
    return None


def draws(name):
    return name.startswith("matplotlib.pyplot.")


# calls that put nothing on a figure
_NO_INK = {"figure", "gcf", "gca", "close", "savefig", "show", "ion", "ioff",
           "switch_backend", "rc", "get_cmap", "cla", "clf", "subplots",
           "subplot", "tight_layout", "setp", "draw", "pause", "rcParams",
           "add_subplot", "subplots_adjust", "imsave"}


def inks(name, recv):
    short = name.split(".")[-1]
    if short in _NO_INK or short.startswith("get_"):
        return False
    if name.startswith("matplotlib.pyplot."):
        return True
    if recv is None:
        return False
    t = recv
    for _ in range(12):
        if t.op in ("sub", "attr", "elem", "ite"):
            t = t.args[1] if t.op == "ite" else t.args[0]
        elif t.op == "call":
            t = t.args[0]
        else:
            break
    return t.op == "ext" and t.args[0].startswith("matplotlib.")


def hook(ip, name, recv, args, kw, node):
    op = op_of(name, recv)
    if op is None and inks(name, recv):
        op = "draw"
    if op is None:
        return
    h = ip.st.heap.setdefault("__ts__", {"state": const(())})
    tgt = None
    if op == "save":
        tgt = args[0] if args else dict(kw).get("fname", NONE)

    def step(t):
        if t.op == "ite":
            return ite(t.args[0], step(t.args[1]), step(t.args[2]))
        if t.op in ("mu",):
            return step(t.args[2])
        if t.op == "loop":
            return step(t.args[2])
        seq = t.args[0] if t.op == "const" else ("?",)
        if op == "draw" and seq and seq[-1] == "draw":
            return t
        item = op if op != "save" else ("save", show(tgt, 4),
                                        exact(tgt))
        return const(seq + (item,))
    h["state"] = step(h["state"])


def exact(t):
    """The file written is the one the caller named, nothing else."""
    if t.op == "ite":
        return exact(t.args[1]) and exact(t.args[2])
    if t.op in ("mu", "loop"):
        return exact(t.args[2])
    if t.op == "call" and t.args[0].op == "ext" and \
            t.args[0].args[0] in ("os.fspath", "builtins.str"):
        return any(exact(x) for x in t.args[1:] if hasattr(x, "op"))
    name = param("e", "save_name")
    if t == name:
        return True
    # one of several figures: the name with a label before its extension
    ps = pieces(t)
    return len(ps) == 3 and ps[1].op == "const" and all(
        x.op == "sub" and x.args[1] is const(i) and
        x.args[0].op == "call" and x.args[0].args[0] is
        mk("ext", "os.path.splitext") and x.args[0].args[1][:1] == (name,)
        for i, x in ((0, ps[0]), (1, ps[2])))


def pieces(t):
    if t.op == "fstr":
        return [y for x in t.args for y in pieces(x)]
    if t.op == "bin" and t.args[0] == "+":
        return pieces(t.args[1]) + pieces(t.args[2])
    return [t]


def final(ip):
    h = ip.st.heap.get("__ts__")
    if h is None:
        return [()]
    out = []
    todo = [h["state"]]
    while todo:
        x = todo.pop()
        for y in ite_leaves(x):
            if y.op == "const":
                out.append(y.args[0])
            elif y.op == "mu":
                todo.append(y.args[2])
            elif y.op == "loop":
                todo += [y.args[1], y.args[2]]
            else:
                out.append(("?",))
    return out


def entries(p):
    for c in stat_classes(p):
        for n, (k, f) in sorted(public_methods(p, c).items()):
            if k == "methods" and "save_name" in f.params and \
                    n not in ("to_fits", "from_fits"):
                yield c, f
    for f in public_functions(p):
        if "save_name" in f.params:
            yield None, f


PLOTFLAGS = ("verbose", "show", "show_plot", "plot")


def run_mode(p, c, f, mode, rep):
    ip = Interp(p, assume=[(mk("cmp", "is", param("e", "save_name"), NONE),
                            mode != "given"),
                           (param("e", "save_name"), mode == "given")])
    fixed = {}
    for n in f.params:
        if n in PLOTFLAGS:
            fixed[n] = FALSE if mode == "off" else TRUE
        if n in _FLAGS_OFF:
            fixed[n] = FALSE
        if n.rstrip("12").endswith("kwargs") and n != "kwargs":
            fixed[n] = mk("dict")
    if f.node.args.kwarg is not None:
        fixed[f.node.args.kwarg.arg] = mk("dict")
    if mode != "given":
        fixed["save_name"] = NONE
    obj = None
    if c is not None:
        obj = ip.new_object(c)
        for m in main_methods(p, c):
            if m is not f:
                fx = {n: FALSE for n in m.params if n in PLOTFLAGS}
                if "save_name" in m.params:
                    fx["save_name"] = NONE
                ip.enter(m, "run", obj, fx)
    ip.st.heap["__ts__"] = {"state": const(())}
    n0 = len(ip.events)
    ip.on_call = hook
    v = ip.enter(f, "e", obj, fixed)
    rep.saw(ip)
    return ip, ip.events[n0:], v


def check(p, rep, tier):
    n = 0
    seen = set()
    for c, f in entries(p):
        who = "%s.%s" % (c.name, f.name) if c is not None else f.name
        n += 1
        for mode in ("given", "none", "off"):
            if mode == "off" and not any(x in PLOTFLAGS for x in f.params):
                continue
            ip, evs, v = run_mode(p, c, f, mode, rep)
            if v is None:
                continue
            seqs = set(final(ip))
            bad = None
            if mode == "given":
                for s in seqs:
                    st = "start"
                    ink = False
                    for x in s:
                        if x == "draw":
                            ink = True
                            if st == "saved":
                                bad = "draws on the figure after it was " \
                                    "saved"
                        elif isinstance(x, tuple):
                            if not x[2]:
                                bad = "saves to %s instead of the given " \
                                    "name" % x[1]
                            if st == "saved":
                                bad = "a saved figure is left open"
                            st = "saved"
                        elif x == "close":
                            if ink and st != "saved":
                                bad = "closes the figure before it is saved"
                            ink = False
                            if st == "saved":
                                st = "done"
                        elif x == "show":
                            bad = "shows the figure although a file name " \
                                "was given"
                    if st == "saved":
                        bad = "does not close the figure it saved"
                    if st == "start" and not bad:
                        bad = "a path does not save the figure to the " \
                            "given name"
                    if bad:
                        break
            elif mode == "none":
                for s in seqs:
                    if any(isinstance(x, tuple) for x in s):
                        bad = "saves a figure although no name was given"
                    elif "show" in s and s[-1] == "draw":
                        bad = "draws on the figure after it was shown"
                    elif "show" not in s and f.name not in NO_SHOW and \
                            draws_any(evs):
                        bad = "a path draws a figure and neither shows nor " \
                            "saves it"
            else:
                if any(x != "draw" for s in seqs for x in s):
                    bad = "figure output although plotting is off"
                elif draws_any(evs) and any(x in PLOTFLAGS and x != "show"
                                            for x in f.params):
                    bad = "draws a figure although plotting is off"
            rep.ob(bad is None, Finding(
                "P05." + mode, fwhere(f), "%s mode=%s" % (who, mode),
                bad or "", f.node.lineno),
                sample="%s mode=%s: sequences %s" % (who, mode, sorted(
                    map(str, seqs))[:3]))
    nw = 0
    for s in all_scenarios(p, rep):
        for e in s.events:
            if e.kind != "call":
                continue
            t = write_target(e)
            if t is None:
                continue
            nw += 1
            ok = any(x.op == "param" for x in leaves(t))
            rep.ob(ok, Finding(
                "P05.write", ewhere(e), e.name,
                "writes a file whose name (%s) does not come from the "
                "caller (entry %s)" % (show(t, 3), s.label), e.line(),
                chain(e)), sample="%s writes %s" % (s.label, show(t, 3)))
    rep.at_least("entry points with save_name", n, 40)
    rep.at_least("file writes", nw, 10)


NO_SHOW = set()


def draws_any(evs):
    return any(e.kind == "call" and draws(e.name) and
               e.name.split(".")[-1] not in ("rcParams", "close")
               for e in evs)


def write_target(e):
    n = e.name
    short = n.split(".")[-1]
    a = e.args
    if n == "builtins.open" and len(a) > 1:
        m = a[1]
        if m.op == "const" and isinstance(m.args[0], str) and any(
                ch in m.args[0] for ch in "wax+"):
            return a[0]
        return None
    if n == "builtins.open":
        kw = dict((k, v) for k, v in e.kwargs if k)
        m = kw.get("mode")
        if m is not None and m.op == "const" and any(
                ch in str(m.args[0]) for ch in "wax+"):
            return a[0]
        return None
    if n in ("numpy.save", "numpy.savez", "numpy.savetxt",
             "numpy.savez_compressed") or short in (
            "writeto", "to_csv", "to_pickle", "tofile", "to_hdf",
            "savefig", "imsave", "save_to", "to_json"):
        if a:
            i = 1 if e.get("method") else 0
            return a[min(i, len(a) - 1)]
        kw = dict((k, v) for k, v in e.kwargs if k)
        return kw.get("fname", NONE)
    if n in ("os.remove", "os.unlink", "shutil.rmtree", "os.makedirs",
             "os.mkdir", "os.rename"):
        return a[0] if a else NONE
    return None
