"""P03: seeded draws are reproducible and leave the global RNG alone."""
from ..core import Finding, ewhere, chain, all_scenarios
from ..terms import walk, show, leaves, NONE

RULE = ("effect analysis of random draws: (a) nothing reseeds or replaces "
        "the process-wide generator; (b) every draw reached from an entry "
        "point that takes a seed happens inside a seeded, state-restoring "
        "context (or on a private generator) whose seed is exactly that "
        "argument; (c) no unseeded generator or clock value is used there")
EXPLANATION = ("Every public entry point is analysed with symbolic "
               "arguments, calls inlined; each library call that draws "
               "random numbers is checked against the stack of `with` "
               "contexts open on that path and the value of their seed.")
ASSUMPTIONS = ["astropy's NumpyRNGContext restores the global state on exit",
               "libraries called with fixed arguments do not draw on their "
               "own (emcee samplers are outside: they take no seed here)"]

_NOT_DRAW = {"seed", "get_state", "set_state", "RandomState", "default_rng",
             "Generator", "SeedSequence", "PCG64", "MT19937", "Philox",
             "BitGenerator", "SFC64"}
_PRIVATE = {"numpy.random.RandomState", "numpy.random.default_rng",
            "random.Random", "numpy.random.mtrand.RandomState"}
_GLOBAL = {"numpy.random.seed", "numpy.random.set_state", "random.seed",
           "random.setstate", "numpy.random.mtrand.seed"}
_CLOCK = {"time.time", "time.time_ns", "os.urandom", "uuid.uuid4",
          "time.clock", "time.perf_counter", "os.getpid",
          "datetime.datetime.now"}


def seed_params(f):
    return [n for n in f.params if "seed" in n.lower() or
            n in ("random_state", "rng")]


def ctx_seed(c):
    """seed term of a seeding context manager, or None"""
    if c.op == "call" and c.args[0].op == "ext" and \
            c.args[0].args[0].endswith("NumpyRNGContext"):
        if c.args[1]:
            return c.args[1][0]
        for k, v in c.args[2]:
            if k == "seed":
                return v
    return None


def gen_seed(t):
    """(is a private generator, its seed)"""
    for x in walk(t):
        if x.op == "call" and x.args[0].op == "ext" and \
                x.args[0].args[0] in _PRIVATE:
            if x.args[1]:
                return True, x.args[1][0]
            for k, v in x.args[2]:
                if k == "seed":
                    return True, v
            return True, None
    return False, None


def check(p, rep, tier):
    nd = ns = 0
    for s in all_scenarios(p, rep):
        want = None
        if s.func is not None:
            sp = seed_params(s.func)
            if sp:
                sc = [k for k, v in s.scopes.items() if v is s.func][-1]
                want = [x for x in sp]
                scope = sc
                ns += 1
        for e in s.events:
            if e.kind != "call":
                continue
            n = e.name
            if n in _GLOBAL:
                rep.ob(False, Finding(
                    "P03.global", ewhere(e), n,
                    "changes the process-wide random state (entry %s)"
                    % s.label, e.line(), chain(e)))
                continue
            draw = False
            priv = None
            if n.startswith("numpy.random.") or n.startswith("random."):
                if n.split(".")[-1] not in _NOT_DRAW:
                    draw = True
            elif n.startswith(".") and e.recv is not None:
                is_p, sd = gen_seed(e.recv)
                if is_p and e.recv.op in ("call", "ite", "enter"):
                    draw, priv = True, (sd,)
                elif n == ".rvs":
                    draw = True
                    kw = dict((k, v) for k, v in e.kwargs if k)
                    if "random_state" in kw:
                        is_p, sd = gen_seed(kw["random_state"])
                        priv = (sd if is_p else kw["random_state"],)
            elif n in _CLOCK and (want or any(
                    seed_params(f) for f, _ in e.stack)):
                rep.ob(False, Finding(
                    "P03.clock", ewhere(e), n,
                    "seeded routine uses a non-reproducible value (entry "
                    "%s)" % s.label, e.line(), chain(e)))
            if not draw:
                continue
            nd += 1
            rep.count("random_draws")
            owners = [f for f, _ in e.stack if seed_params(f)]
            if not owners:
                rep.count("draws_outside_seeded_routines")
                continue
            seeds = [ctx_seed(c) for c in e.ctxs]
            seeds = [x for x in seeds if x is not None]
            seed = priv[0] if priv is not None else (
                seeds[-1] if seeds else None)
            ok = seed is not None and seed is not NONE
            why = "the draw is not inside a seeded context"
            if ok and want and s.func in owners:
                ok = any(seed.op == "param" and seed.args[0] == scope and
                         seed.args[1] == w for w in want)
                why = "the draw is seeded with %s, not with the %r argument " \
                    "of %s" % (show(seed, 3), want[0], s.label)
            elif ok:
                ok = all(x.op in ("param",) or x.op not in ("global",)
                         for x in walk(seed))
            rep.ob(ok, Finding("P03.draw", ewhere(e), n, why +
                               " (entry %s)" % s.label, e.line(), chain(e)),
                   sample="%s: %s seeded with %s" % (s.label, n, show(
                       seed, 3) if seed is not None else "-"))
    rep.at_least("random draws", nd, 8)
    rep.at_least("entry points with a seed", ns, 5)
