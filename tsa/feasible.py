"""Is a conjunction of branch conditions contradictory?  Propositional check
over the atomic conditions (bounded), with the exclusions between comparisons
of one term with different constants."""
from .terms import truth, NONE, mk

BUDGET = 4000


def atoms_of(t, out):
    if t.op == "not":
        atoms_of(t.args[0], out)
    elif t.op in ("and", "or"):
        for x in t.args:
            atoms_of(x, out)
    elif t.op == "ite":
        for x in t.args:
            atoms_of(x, out)
    elif truth(t) is None and t not in out:
        out.append(t)


def ev(t, env):
    """True / False / None (not decided by ``env``)"""
    v = truth(t)
    if v is not None:
        return v
    if t.op == "not":
        r = ev(t.args[0], env)
        return None if r is None else not r
    if t.op in ("and", "or"):
        stop = t.op == "or"
        res = not stop
        for x in t.args:
            r = ev(x, env)
            if r is stop:
                return stop
            if r is None:
                res = None
        return res
    if t.op == "ite":
        r = ev(t.args[0], env)
        if r is None:
            x, y = ev(t.args[1], env), ev(t.args[2], env)
            return x if x is not None and x == y else None
        return ev(t.args[1 if r else 2], env)
    return env.get(t)


def _eqconst(a):
    if a.op == "cmp" and a.args[0] in ("==", "is") and \
            a.args[2].op == "const":
        return a.args[1], a.args[2]
    return None


def feasible(facts):
    """facts: iterable of (condition, truth value)"""
    facts = [(c, v) for c, v in facts]
    atoms = []
    fixed = {}
    for c, v in facts:
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op not in ("and", "or", "ite") and truth(c) is None:
            if fixed.get(c, v) != v:
                return False
            fixed[c] = v
    for c, v in facts:
        atoms_of(c, atoms)
    eqs = {}
    for a in atoms:
        e = _eqconst(a)
        if e:
            eqs.setdefault(e[0], []).append((a, e[1]))
    free = [a for a in atoms if a not in fixed]
    comp = [(c, v) for c, v in facts if c.op in ("and", "or", "ite", "not")]
    used = []
    for c, v in comp:
        atoms_of(c, used)
    free = [a for a in free if a in used]
    budget = [BUDGET]

    def consistent(env):
        for subj, lst in eqs.items():
            true = [k for x, k in lst if env.get(x)]
            if len(set(k.id for k in true)) > 1:
                return False
            # a term known to equal a constant has that truth value
            if true and env.get(subj) is not None and \
                    bool(true[0].args[0]) != env[subj]:
                return False
        return True

    comp_atoms = []
    for c, v in comp:
        l = []
        atoms_of(c, l)
        comp_atoms.append(l)

    def search(env):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        if not consistent(env):
            return False
        best = None
        for (c, v), l in zip(comp, comp_atoms):
            r = ev(c, env)
            if r is None:
                un = [x for x in l if x not in env]
                if un and (best is None or len(un) < len(best)):
                    best = un
            elif r != v:
                return False
        if best is None:
            return True
        for val in (True, False):
            env[best[0]] = val
            if search(env):
                return True
        del env[best[0]]
        return False
    return search(dict(fixed))
