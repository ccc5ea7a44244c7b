"""P07: distance metrics treat the two data sets alike."""
from ..canon import Canon, element
from ..core import Finding, default_expr, has_method, main_methods, stat_classes
from ..interp import Interp
from ..observe import observables
from ..project import AnalysisError
from ..terms import (FALSE, NONE, TRUE, T, const, ite_leaves, leaves, mk,
                     param, walk)
from ..results import reach

RULE = ("self-composition of each distance class by renaming: its results as "
        "terms over the arguments equal, in canonical form, the same terms "
        "with the arguments of the two data sets exchanged; per-data-set "
        "options do not occur in the terms of the other data set")
EXPLANATION = (
    "Each *_Distance class is abstractly interpreted (constructor and "
    "distance_metric, calls inlined) with symbolic arguments. Parameters are "
    "paired by name (image1/image2, weights1/weights2, x_kwargs/x2_kwargs, "
    "boundary[0]/boundary[1]); the canonical form of every distance "
    "(commutative sums and products, |-x|=|x|, mirrored comparisons) must be "
    "invariant under exchanging the pairs, and the state kept for data set 1 "
    "must be that kept for data set 2 with the pairs exchanged. An option "
    "for one data set may not occur in the other's state.")
ASSUMPTIONS = [
    "two precomputed SCF objects on the same grid have the same number of "
    "lags (the constructor refuses other lags)",
    "strict and non-strict comparison are taken together (they differ only "
    "for equal values)",
]


def pairs(names):
    out = {}
    for n in names:
        if n.endswith("1") and n[:-1] + "2" in names:
            out[n] = n[:-1] + "2"
        elif n + "2" in names:
            out[n] = n + "2"
        else:
            for m in names:
                if m != n and m.replace("2", "", 1) == n:
                    out[n] = m
    return out


def indexed(obs):
    """{param: {constant indices it is read with}}"""
    out = {}
    for t in obs.values():
        for x in walk(t):
            if x.op == "sub" and x.args[1].op == "const" and \
                    isinstance(x.args[1].args[0], int):
                e = element(x.args[0], x.args[1].args[0])
                for y in ite_leaves(e if e is not None else x):
                    if y.op == "sub" and y.args[0].op == "param" and \
                            y.args[1].op == "const":
                        out.setdefault(y.args[0], set()).add(
                            y.args[1].args[0])
    return out


def shapes(ip):
    """equalities the code insists on (raises otherwise)"""
    out = set()
    for e in ip.events:
        for c, v in e.facts.items():
            if not v:
                continue
            if c.op == "call" and c.args[0].op == "ext" and \
                    c.args[0].args[0] in ("numpy.all", "builtins.all"):
                c = c.args[1][0]
                if c.op == "cmp" and c.args[0] == "==":
                    out.add((c.args[1], c.args[2]))
            elif c.op == "cmp" and c.args[0] == "==" and \
                    all(x.op == "attr" and x.args[1] == "shape"
                        for x in c.args[1:3]):
                out.add((c.args[1], c.args[2]))
    return out


class Case(object):
    """One way of calling a distance class.  ``kinds`` says for each of the
    two data sets whether it is given as data ("r") or as an analysis made
    before ("p")."""

    def __init__(self, p, c, mode, flags, grid, kinds, pre, rep,
                 somewhere=frozenset()):
        self.somewhere = somewhere
        self.label = ", ".join(x for x in (
            mode and "second options %s" % mode,
            flags and "flags %s" % flags, grid,
            kinds != "rr" and "precomputed: %s" % {
                "pp": "both", "pr": "first", "rp": "second"}[kinds]) if x)
        self.grid, self.kinds, self.mode = grid, kinds, mode
        init = has_method(p, c, "__init__")
        dm = has_method(p, c, "distance_metric")
        pi, pd = pairs(init.params), pairs(dm.params)
        opt = {a: b for a, b in pi.items() if not is_data(a)}
        self.opt, self.pi = opt, pi
        fixed = {n: TRUE if flags == "on" else FALSE for n in init.params
                 if flags and n.startswith("use_")}
        assume = []
        if mode == "default":
            fixed.update({b: NONE for a, b in opt.items()
                          if not a.endswith("1")})
        else:
            assume = [(mk("cmp", "is", param("init", x), NONE), False)
                      for a, b in opt.items() if not a.endswith("1")
                      for x in (a, b)]
        data = [(a, b) for a, b in pi.items() if is_data(a)]
        isin = mk("ext", "builtins.isinstance")
        if pre is not None:
            for ab in data:
                for k, n in zip(kinds, ab):
                    if k == "r":
                        assume.append((mk("call", isin, (
                            param("init", n), mk("class", pre.qual)), ()),
                            False))
        ip = self.ip = Interp(p, assume=assume)
        self.sw = sw = {}
        self.own = [set(), set()]
        for i, k in enumerate(kinds):
            for ab in data:
                self.own[i].add(param("init", ab[i]))
        if "p" in kinds:
            a, b = data[0]
            for i, (k, n) in enumerate(zip(kinds, (a, b))):
                if k == "p":
                    ref, own = precomputed(ip, p, pre, "pre%d" % (i + 1))
                    fixed[n] = ref
                    self.own[i] |= own
        if grid == "same grid":
            ip.stubs["common_scale"] = const(1.0)
        self.obj = obj = ip.new_object(c, fixed=fixed)
        v = ip.enter(dm, "run", obj, {
            n: FALSE for n in dm.params if n in ("verbose",)})
        if v is None:
            raise AnalysisError("%s.distance_metric always raises" % c.name)
        if rep is not None:
            rep.saw(ip)
        self.obs = observables(ip, obj, depth=0)
        self.all = reach(ip, obj)
        self.used = set()
        for t in list(self.obs.values()) + list(self.all.values()):
            self.used |= leaves(t)
        self.idx = indexed(self.all)
        self.pd, self.fixed = pd, fixed

    def whole(self, q):
        """is the option used other than by its elements (as an array)?"""
        seen = set()

        def go(x):
            if x.id in seen or q not in leaves(x):
                return False
            seen.add(x.id)
            if x is q:
                return True
            if x.op == "sub" and x.args[1].op == "const" and isinstance(
                    x.args[1].args[0], int):
                if x.args[0] is q:
                    return False
                e = element(x.args[0], x.args[1].args[0])
                if e is not None and e is not x:
                    # one value for both, or one each
                    ls = ite_leaves(e)
                    if any(y.op == "sub" and y.args[0] is q for y in ls):
                        ls = [y for y in ls if y is not q]
                    return any(go(y) for y in ls)
            if x.op == "ite":
                return go(x.args[1]) or go(x.args[2])
            return any(go(y) for y in x.kids())
        return any(go(t) for t in self.all.values() if t.op != "ref")

    def pair(self, other):
        """``other``: the same call with the data sets exchanged"""
        self.partner = other
        for me, it in ((self, other), (other, self)):
            me.partner = it
            me.finish(me.used | it.used, it)
        return self

    def finish(self, used, other):
        sw = self.sw
        sw.update(other.sw)
        for sc, ps in (("init", self.pi), ("run", self.pd)):
            for a, b in ps.items():
                if b in self.fixed and not is_data(a):
                    continue
                if not is_data(a) and param(sc, b) not in used and \
                        param(sc, b) in self.somewhere:
                    continue        # documented as ignored in this mode
                sw[param(sc, a)] = param(sc, b)
                sw[param(sc, b)] = param(sc, a)
        idx = {}
        for d in (self.idx, other.idx):
            for q, ks in d.items():
                idx.setdefault(q, set()).update(ks)
        both = {q for q, ks in idx.items() if {0, 1} & ks and
                q not in sw and q.args[0] == "init" and
                ({0, 1} <= ks or not self.whole(q))}
        self.both = both

        def swap(t):
            if t in sw:
                return sw[t]
            if t.op == "param" and t.args[0] in ("pre1", "pre2"):
                return param("pre1" if t.args[0] == "pre2" else "pre2",
                             t.args[1])
            if t.op == "sub" and t.args[0] in both and \
                    t.args[1].op == "const" and t.args[1].args[0] in (0, 1):
                return mk("sub", t.args[0], const(1 - t.args[1].args[0]))
            return None
        eqs = shapes(self.ip)
        for k, t in self.all.items():
            if k.endswith("1.size") and k[:-6] + "2.size" in self.all:
                eqs.add((t, self.all[k[:-6] + "2.size"]))
        eqs = sorted(eqs, key=lambda x: (x[0].id, x[1].id))
        self.eqs = eqs
        self.A, self.B = Canon(eqs=eqs), Canon(swap, eqs)

    def symmetric(self, k, m=None):
        """result ``k`` of the calls with the data sets exchanged"""
        t = self.all.get(k, self.obs.get(k))
        m = m or k
        u = self.partner.all.get(m, self.partner.obs.get(m))
        if t is None or u is None:
            return True
        return self.A(t) == self.partner.B(u)


def precomputed(ip, p, cls, scope):
    """An analysis the caller made and ran before; settings common to both
    data sets, data its own."""
    init = has_method(p, cls, "__init__")
    own, fixed = set(), {}
    for n in init.params[1:]:
        if default_expr(init, n) is None or n in (
                "header", "weights", "distance", "linewidth"):
            own.add(param(scope, n))
            fixed[n] = param(scope, n)
        else:
            fixed[n] = param("pre", n)
    ip._alloc_tag = scope[-1] + "~"
    ref = ip.new_object(cls, scope, fixed=fixed, tag=":" + scope[-1])
    for m in main_methods(p, cls):
        f = {n: FALSE for n in m.params if n == "verbose"}
        f.update({n: param("pre", n) for n in m.params[1:]
                  if n != "verbose"})
        ip.enter(m, scope, ref, f)
    ip._alloc_tag = ""
    return ref, own


def pre_class(p, c):
    """class whose instances may be given instead of data"""
    ip = Interp(p)
    ip.new_object(c)
    for e in ip.events:
        for t in e.facts:
            for x in walk(t):
                if x.op == "call" and x.args[0].op == "ext" and \
                        x.args[0].args[0] == "builtins.isinstance" and \
                        x.args[1][0].op == "param" and \
                        is_data(x.args[1][0].args[1]) and \
                        x.args[1][1].op == "class":
                    return p.classes[x.args[1][1].args[0]]
    return None


def is_data(a):
    """the data sets themselves, as opposed to options for one of them"""
    return a.startswith(("img", "image", "cube", "dataset", "data",
                         "fiducial"))


def distance_classes(p):
    for c in stat_classes(p):
        if has_method(p, c, "distance_metric"):
            yield c


def cases(p, c, rep, grids=("same grid", "any grid"),
          kinds=("rr", "pp", "pr")):
    init = has_method(p, c, "__init__")
    pi = pairs(init.params)
    opt = [b for a, b in pi.items()
           if not is_data(a) and not a.endswith("1")]
    flags = ["on", "off"] if any(n.startswith("use_")
                                 for n in init.params) else [None]
    pre = pre_class(p, c)
    somewhere = set()
    if flags != [None]:
        for fl in flags:
            somewhere |= Case(p, c, "given" if opt else None, fl,
                              "same grid", "rr", pre, rep).used
    for mode in (["given", "default"] if opt else [None]):
        for fl in flags:
            for grid in grids:
                def make(kinds):
                    return Case(p, c, mode, fl, grid, kinds, pre, rep,
                                somewhere)
                x = make("rr")
                yield x.pair(x)
                if pre is not None and "pp" in kinds:
                    x = make("pp")
                    yield x.pair(x)
                if pre is not None and "pr" in kinds:
                    yield make("pr").pair(make("rp"))


def check(p, rep, tier):
    nc = nd = 0
    for c in distance_classes(p):
        nc += 1
        reported = set()
        for case in cases(p, c, rep):
            nd += distances(p, rep, c, case, reported)
            states(p, rep, c, case, reported)
    rep.at_least("distance classes", nc, 14)
    rep.at_least("distances", nd, 40)


def distances(p, rep, c, case, reported):
    n = 0
    for k, t in sorted(case.obs.items()):
        if "distance" not in k:
            continue
        n += 1
        ok = case.symmetric(k)
        key = (k, case.grid)
        if not ok and (k, "same grid") in reported:
            continue
        reported.add(key) if not ok else None
        rep.ob(ok, Finding(
            "P07.symmetry" if case.grid == "same grid" else
            "P07.symmetry-regrid",
            "%s:%s" % (c.module.rel, c.name), k,
            "%s.%s changes when the two data sets are exchanged (%s)" % (
                c.name, k, case.label), c.node.lineno),
            "%s.%s invariant under exchange (%s)" % (c.name, k, case.label))
    return n


def states(p, rep, c, case, reported):
    top = {k.split(".")[0] for k in case.all}
    where = "%s:%s" % (c.module.rel, c.name)
    diff = {}
    for k, t in sorted(case.all.items()):
        h = k.split(".")[0]
        if not (h.endswith("1") and h[:-1] + "2" in top):
            continue
        m = h[:-1] + "2" + k[len(h):]
        if m not in case.all or t.op == "ref":
            continue
        ok = case.symmetric(m, k)
        rep.ob(ok, sample="%s: %s is %s with the data sets exchanged (%s)"
               % (c.name, m, k, case.label))
        if not ok:
            diff.setdefault(h, []).append(k)
    for h, ks in diff.items():
        if ("state", h) in reported:
            continue
        reported.add(("state", h))
        rep.add(Finding(
            "P07.alike", where, h,
            "%s is not computed like %s: %s differ%s once the arguments are "
            "exchanged (%s)" % (h, h[:-1] + "2", ", ".join(ks[:6]),
                                "s" if len(ks) == 1 else "", case.label),
            c.node.lineno))
    if case.mode == "default" or case.grid != "same grid":
        return
    # options for one data set do not reach the other
    d1, d2 = case.own

    def look(name, suf, own, oth, hits):
        other = "1" if suf == "2" else "2"
        leak(rep, c, where, name, sorted(
            k for k, t in case.all.items()
            if k.split(".")[0].endswith(suf) and
            k.split(".")[0][:-1] + other in top and
            exposed(t, hits, own, oth)), reported, case)
    for a, b in sorted(case.opt.items()):
        if param("init", b) not in case.sw:
            continue            # shared by both in this mode
        look(a, "2", d1, d2, lambda x, q=param("init", a): x is q)
        look(b, "1", d2, d1, lambda x, q=param("init", b): x is q)
    for q in sorted(case.both, key=lambda x: x.args):
        for i, suf, own, oth in ((0, "2", d1, d2), (1, "1", d2, d1)):
            look("%s[%d]" % (q.args[1], i), suf, own, oth,
                 lambda x, q=q, i=i: x.op == "sub" and x.args[0] is q and
                 x.args[1] is const(i))


def exposed(t, hit, own, oth):
    """Is there an occurrence of ``hit`` in t outside the parts computed from
    the option's own data set alone (common bins and the like)?"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        memo[x.id] = False
        lv = leaves(x)
        if hit(x):
            r = True
        elif lv & own and not lv & oth:
            r = False
        else:
            r = None
            if x.op == "sub" and x.args[1].op == "const" and isinstance(
                    x.args[1].args[0], int):
                e = element(x.args[0], x.args[1].args[0])
                if e is not None and e is not x:
                    r = go(e)
            if r is None:
                r = any(go(y) for y in x.kids())
        memo[x.id] = r
        return r
    return go(t)


def leak(rep, c, where, name, hit, reported, case):
    ok = not hit
    if not ok and ("leak", name) in reported:
        return
    if not ok:
        reported.add(("leak", name))
    rep.ob(ok, Finding(
        "P07.leak", where, name,
        "the option %s of one data set reaches the other data set's %s (%s)"
        % (name, ", ".join(hit[:6]), case.label), c.node.lineno),
        "%s: %s stays with its data set (%s)" % (c.name, name, case.label))
