"""Entailment in the linear-inequality part of the domain.

Facts are linear forms known to be >= 0 over the integers.  `refute` looks for
a contradiction by Fourier-Motzkin elimination with integer tightening; it is
sound and incomplete (bounded), which is all an over-approximation needs.
"""
from math import gcd
from terms import L, A, atom, slice_atom, width, tick

MAXC = 260
_cache = {}


def norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        c = c // g          # floor: integer tightening
        d = {a: k // g for a, k in d.items()}
    return c, d


class Raw:
    """a linear form that is not folded back (the slices of an atom add up to the atom)"""

    def __init__(self, c, t):
        self.c, self.t = c, t


def axioms(atoms):
    """facts implied by the meaning of atoms that occur together"""
    out = []
    todo = list(atoms)
    seen = set(atoms)
    for a in todo:
        if a.kind == "sl":
            b, lo, hi = a.args
            if b.lo >= 0:
                w = width(b)
                t = [(b, 1), (a, -(1 << lo))]
                if lo > 0:
                    t.append((slice_atom(b, 0, lo), -1))
                if hi < w:
                    t.append((slice_atom(b, hi, w), -(1 << hi)))
                out.append(Raw(0, tuple(t)))
                out.append(Raw(0, tuple((x, -k) for x, k in t)))
                for x, _ in t:
                    if x not in seen:
                        seen.add(x)
                        if x.kind != "sl":
                            todo.append(x)
        elif a.kind == "div":
            x, k = a.args
            out.append(x - A(a) * k)
            out.append(A(a) * k + (k - 1) - x)
        elif a.kind == "rem":
            x, k = a.args
            out.append(x - A(a)) if x.range()[0] >= 0 else None
        elif a.kind == "sum":
            n, bv, g = a.args
            lo, hi = g.range()
            if lo >= 0 or n.range()[0] >= 0:
                out.append(A(a) - n * lo)
            if hi <= 0 or n.range()[0] >= 0:
                out.append(n * hi - A(a))
        elif a.kind == "min":
            x, y = a.args
            out.append(x - A(a))
            out.append(y - A(a))
    return out


def near(a, atoms):
    """a slice or quotient of one of these atoms"""
    b = a.args[0]
    return b in atoms if a.kind == "sl" else any(x in atoms for x, _ in b.t)


def refute(facts, goal):
    """True if facts /\\ goal>=0 is unsatisfiable over the integers."""
    tick()
    # relevance closure
    atoms = {a for a, _ in goal.t}
    sel = []
    rest = list(facts)
    ax = []
    while True:
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for f in rest:
                if any(a in atoms or a.kind in ("sl", "div") and near(a, atoms) for a, _ in f.t):
                    sel.append(f)
                    atoms.update(a for a, _ in f.t)
                    ch = True
                else:
                    nr.append(f)
            rest = nr
        ax = axioms(atoms)
        new = {a for x in ax for a, _ in x.t} - atoms
        if not new:
            break
        atoms |= new            # what the axioms speak of may be bounded by further facts
        if not rest:
            break
    cons = []
    for f in [goal] + sel + ax:
        cons.append((f.c, dict(f.t)))
    for a in atoms:
        cons.append((-a.lo, {a: 1}))
        cons.append((a.hi, {a: -1}))
    return fm(cons)


def fm(cons):
    work = {}

    def add(c, d):
        if not d:
            return c < 0
        c, d = norm(c, d)
        key = frozenset((a.id, k) for a, k in d.items())
        old = work.get(key)
        if old is None or old[0] > c:
            work[key] = (c, d)
        return False

    for c, d in cons:
        if add(c, d):
            return True
    while work:
        tick()
        # opposite pairs
        for key, (c, d) in list(work.items()):
            nk = frozenset((i, -k) for i, k in key)
            o = work.get(nk)
            if o is not None and o[0] + c < 0:
                return True
        occ = {}
        for c, d in work.values():
            for a, k in d.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        a = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        if occ[a][0] * occ[a][1] > MAXC * 4:
            return False
        pos, ng, keep = [], [], []
        for c, d in work.values():
            k = d.get(a, 0)
            (pos if k > 0 else ng if k < 0 else keep).append((c, d))
        work = {}
        for c, d in keep:
            if add(c, d):
                return True
        for c1, d1 in pos:
            k1 = d1[a]
            for c2, d2 in ng:
                k2 = -d2[a]
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for x, k in d1.items():
                    if x is not a:
                        d[x] = k * m1
                for x, k in d2.items():
                    if x is not a:
                        v = d.get(x, 0) + k * m2
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                if add(c1 * m1 + c2 * m2, d):
                    return True
        if len(work) > MAXC:
            return False
    return False
