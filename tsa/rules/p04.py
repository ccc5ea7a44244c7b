"""P04: options about how an analysis is executed never change its results."""
from ..core import (Finding, fwhere, stat_classes, public_methods,
                    public_functions, main_methods, has_method)
from ..interp import Interp
from ..project import AnalysisError
from ..results import reach, value_map
from ..terms import (mk, subst, show, leaves, walk, TRUE, FALSE, NONE, const,
                     param, truth)

RULE = ("every attribute and return value an entry point produces is a term "
        "over the arguments; after substituting both values of an "
        "execution-only option (progress bars, verbosity, file name of the "
        "plot, plot styling, FFT back end and its availability, number of "
        "threads/jobs) the two terms are identical")
EXPLANATION = (
    "Every constructor, run/distance_metric and public method or function "
    "with an execution-only option is abstractly interpreted once with "
    "symbolic arguments; the resulting gated terms are specialised for each "
    "value of the option and compared structurally, so a difference is a "
    "data or control dependence of the result on the option.")
ASSUMPTIONS = [
    "pyfftw's numpy_fft interface and scipy's fft compute what numpy.fft "
    "computes (up to rounding)",
    "keywords named verbose, n_jobs, workers, threads, progress, disp of "
    "third-party functions do not change what those return",
]

FLAGS = ("verbose", "show_progress", "fit_verbose", "use_pyfftw",
         "progress_bar", "show_plot", "plot", "show", "debug")
VALUES = ("save_name", "threads", "n_jobs", "nproc", "num_threads")
STYLE = ("plot_kwargs", "plot_kwargs1", "plot_kwargs2", "label", "label1",
         "label2", "color", "color1", "color2", "symbol", "symbol1",
         "symbol2", "fit_color", "cmap", "show_residual", "fillin_errs",
         "plot_unit", "linestyle1", "linestyle2", "legend", "labels")
EXEC_KW = {"verbose", "n_jobs", "workers", "threads", "progress", "disp",
           "progressbar", "planner_effort", "overwrite_input", "nthreads"}
MAIN_STYLE = ("xunit", "use_wavenumber")


def drop_exec(t):
    """Forget execution keywords of third-party calls."""
    memo = {}

    def fn(x):
        if x.op == "partial":
            kws = tuple((k, v) for k, v in x.args[2] if k not in EXEC_KW and
                        not (k == "**" and v.op == "dict" and not v.args))
            if not kws and not x.args[1]:
                return subst(x.args[0], fn, memo)
            if len(kws) != len(x.args[2]):
                return subst(mk("partial", x.args[0], x.args[1], kws), fn,
                             memo)
        if x.op == "call" and x.args[0].op in ("ext", "attr"):
            kws = tuple((k, v) for k, v in x.args[2] if k not in EXEC_KW)
            if len(kws) != len(x.args[2]):
                return subst(mk("call", x.args[0], x.args[1], kws), fn, memo)
        return None
    return subst(t, fn, memo)


def alternatives(ip, name, scope):
    """[(description, substitution function)] of the option's values."""
    q = param(scope, name)
    if name in FLAGS:
        vals = [("enabled", TRUE), ("disabled", FALSE)]
    elif name == "save_name":
        vals = [("given", const("plot.png")), ("not given", NONE)]
    elif name in VALUES:
        vals = [("1", const(1)), ("4", const(4))]
    else:
        vals = [("A", mk("opaque", "style", "A")),
                ("B", mk("opaque", "style", "B"))]
    return q, vals


def specialise(t, q, v):
    return subst(t, lambda x: v if x is q else None)


def flag_leaves(t):
    return [x for x in leaves(t) if x.op == "global" and
            str(x.args[-1]).upper().endswith("PYFFTW_FLAG")]


def compare(rep, res, q, vals, who, f, line):
    bad = []
    for path, t in sorted(res.items()):
        if path.split(".")[-1] == q.args[1]:
            continue
        if q not in leaves(t):
            rep.ob(True)
            continue
        a = [drop_exec(specialise(t, q, v)) for _, v in vals]
        if q.args[1] == "use_pyfftw":
            # installed or not, both back ends must agree
            b = []
            for x in a:
                fl = flag_leaves(x)
                if not fl:
                    b.append(x)
                for g in fl[:1]:
                    b.append(specialise(x, g, TRUE))
                    b.append(specialise(x, g, FALSE))
            a = b
        ok = all(x is a[0] for x in a)
        rep.ob(ok, sample="%s: %s is unchanged by %s" % (
            who, path, q.args[1]))
        if not ok:
            bad.append((path, differ(a[0], next(
                x for x in a if x is not a[0]))))
    if bad:
        rep.add(Finding(
            "P04.influence", fwhere(f), "%s: %s" % (who, q.args[1]),
            "the execution option %r changes the result %s (%s)%s" % (
                q.args[1], bad[0][0], bad[0][1],
                "; also " + ", ".join(x for x, _ in bad[1:8])
                if bad[1:] else ""), line))


def differ(a, b, depth=0):
    """Innermost point where two terms differ."""
    while depth < 80 and a.op == b.op:
        ka, kb = a.kids(), b.kids()
        if len(ka) != len(kb):
            break
        d = [(x, y) for x, y in zip(ka, kb) if x is not y]
        if not d:
            break
        a, b = d[0]
        depth += 1
    return "%s vs %s" % (show(a, 3)[:120], show(b, 3)[:120])


def opts_of(f, is_main):
    names = list(f.params)
    if f.node.args.kwarg is not None:
        names.append(f.node.args.kwarg.arg)
    out = []
    for n in names:
        if n in FLAGS or n in VALUES or n in STYLE or (
                is_main and n in MAIN_STYLE):
            out.append(n)
    return out


def fix(f):
    """Options that are documented to reach the numerics stay symbolic, but
    extra FFT keywords are the caller's own."""
    fixed = {}
    for n in f.params:
        if n == "pyfftw_kwargs":
            fixed[n] = mk("dict")
    k = f.node.args.kwarg
    if k is not None and k.arg == "pyfftw_kwargs":
        fixed[k.arg] = mk("dict")
    return fixed


def check(p, rep, tier):
    n_opts = 0
    n_entries = 0
    for c in stat_classes(p):
        hit = p.find(c, "__init__")
        init = hit[1] if hit and hit[0] == "methods" else None
        ip = Interp(p)
        try:
            obj = ip.new_object(c, fixed=fix(init) if init else None)
        except AnalysisError:
            continue
        if init is not None:
            for n in opts_of(init, False):
                q, vals = alternatives(ip, n, "init")
                n_opts += 1
                compare(rep, reach(ip, obj, skip=(n,)), q, vals, c.name,
                        init, init.node.lineno)
        mains = main_methods(p, c)
        for m in mains:
            v = ip.enter(m, "run", obj, fix(m))
            if v is None:
                continue
            n_entries += 1
            res = reach(ip, obj)
            for n in opts_of(m, True):
                q, vals = alternatives(ip, n, "run")
                n_opts += 1
                compare(rep, res, q, vals, "%s.%s" % (c.name, m.name), m,
                        m.node.lineno)
            if init is not None:
                for n in opts_of(init, False):
                    q, vals = alternatives(ip, n, "init")
                    compare(rep, {k: t for k, t in res.items()
                                  if k.split(".")[-1] != n}, q, vals,
                            "%s.%s" % (c.name, m.name), m, m.node.lineno)
        rep.saw(ip)
        base = ip.st.copy()
        before = reach(ip, obj)
        for n, (k, f) in sorted(public_methods(p, c).items()):
            if f in mains or k != "methods" or f.kind in ("classmethod",
                                                          "staticmethod"):
                continue
            os_ = opts_of(f, False)
            isplot = n.startswith("plot")
            if not os_ and not isplot:
                continue
            ip.st = base.copy()
            v = ip.enter(f, "m", obj, fix(f))
            if v is None:
                continue
            n_entries += 1
            after = reach(ip, obj)
            if isplot:
                for path in set(before) | set(after):
                    a, b = before.get(path), after.get(path)
                    rep.ob(a is b, Finding(
                        "P04.plot", fwhere(f), "%s.%s changes %s" % (
                            c.name, n, path),
                        "drawing changes the stored result %s" % path,
                        f.node.lineno))
            res = dict(after)
            res.update(value_map(ip, v))
            for o in os_:
                if isplot:
                    continue
                q, vals = alternatives(ip, o, "m")
                n_opts += 1
                compare(rep, res, q, vals, "%s.%s" % (c.name, n), f,
                        f.node.lineno)
        ip.st = base
    for f in public_functions(p):
        os_ = opts_of(f, False)
        if not os_:
            continue
        ip = Interp(p)
        v = ip.enter(f, "arg", None, fix(f))
        if v is None:
            continue
        n_entries += 1
        res = value_map(ip, v)
        for o in os_:
            q, vals = alternatives(ip, o, "arg")
            n_opts += 1
            compare(rep, res, q, vals, f.name, f, f.node.lineno)
        rep.saw(ip)
    rep.count("option/entry pairs", n_opts)
    rep.at_least("option/entry pairs", n_opts, 100)
    rep.at_least("entries", n_entries, 50)
