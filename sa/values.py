"""Abstract values and the abstract state."""
from terms import *
import lin
from terms import _kn


class Infeasible(Exception):
    pass


class Split(Exception):
    """the current statement needs a case split (trace partitioning)"""

    def __init__(self, conds):
        self.conds = conds


class GiveUp(Exception):
    """the analysis cannot represent something soundly"""


def _deepv(*xs):
    d = set()
    for x in xs:
        _deep_into(x, d)
    return d


def _deep_into(x, d):
    if isinstance(x, L):
        d |= x.deep_atoms()
    elif isinstance(x, Atom):
        d |= x.deep
    elif isinstance(x, tuple):
        for y in x:
            _deep_into(y, d)
    elif hasattr(x, "deep_atoms"):
        d |= x.deep_atoms()


def _match(p, x, v, i):
    """x == p[v := i]; i is a one-element list"""
    if isinstance(p, L) and p == A(v):
        if not isinstance(x, L) or i[0] not in (None, x):
            return False
        i[0] = x
        return True
    if p is x or p == x:
        return True
    if isinstance(p, L):
        return isinstance(x, L) and p.c == x.c and len(p.t) == len(x.t) == 1 and p.t[0][1] == x.t[0][1] and _match(p.t[0][0], x.t[0][0], v, i)
    if isinstance(p, Atom):
        return isinstance(x, Atom) and p.kind == x.kind and _match(p.args, x.args, v, i)
    if isinstance(p, tuple):
        return isinstance(x, tuple) and len(p) == len(x) and all(_match(a, b, v, i) for a, b in zip(p, x))
    return False


class V:
    __slots__ = ("_k", "_hh")
    _f = ()

    def key(self):
        k = getattr(self, "_k", None)
        if k is None:
            k = (self.__class__.__name__,) + tuple(getattr(self, f) for f in self._f)
            self._k = k
        return k

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and hash(self) == hash(o) and self.key() == o.key())

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        h = getattr(self, "_hh", None)
        if h is None:
            h = hash(self.key())
            self._hh = h
        return h

    def deep_atoms(self):
        return frozenset(_deepv(*[getattr(self, f) for f in self._f]))

    def rewrite(self, m, memo):
        r = self.__class__(*[rewrite(getattr(self, f), m, memo) for f in self._f])
        return r

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, ", ".join(sh(getattr(self, f)) for f in self._f if f != "ty"))


class Struct(V):
    __slots__ = ("ty", "fields", "fn")
    _f = ("ty", "fields", "fn")

    def __init__(self, ty, fields, fn=None):
        self.ty = ty
        self.fields = tuple(fields)
        self.fn = fn

    def __repr__(self):
        return "{%s}" % ", ".join(map(sh, self.fields))


class Enum(V):
    __slots__ = ("ty", "var", "fields")
    _f = ("ty", "var", "fields")

    def __init__(self, ty, var, fields):
        self.ty = ty
        self.var = var
        self.fields = tuple(fields)

    def __repr__(self):
        return "%s#%d(%s)" % (self.ty.split("<")[0].split("::")[-1], self.var, ", ".join(map(sh, self.fields)))


class Ptr(V):
    """reference / raw pointer / Box.  rng=(off,len) for slices; vt=concrete type behind dyn"""
    __slots__ = ("cell", "path", "rng", "vt")
    _f = ("cell", "path", "rng", "vt")

    def __init__(self, cell, path=(), rng=None, vt=None):
        self.cell = cell
        self.path = path
        self.rng = rng
        self.vt = vt

    def __repr__(self):
        return "&%s%s%s" % (sh(self.cell), "." + sh(self.path) if self.path else "",
                            "[%s;%s]" % self.rng if self.rng else "")


class Seq(V):
    """sequence: array, slice contents, Vec, String, str.

    segs: tuple of (n, kind, data...) with kind
      'e' v          one element            'r' v       n copies
      'o' name off   elements of an opaque sequence    '?' uid   unknown
      'star' bv body body repeated for bv in 0..count   (n, 'star', count, bv, body)
      'ilint' V      canonical ILInt encoding of V      'ser' name kind   bytes of a nested tag
    """
    __slots__ = ("ety", "segs", "_len")
    _f = ("ety", "segs")

    def __init__(self, ety, segs):
        self.ety = ety
        self.segs = tuple(s for s in segs if s[0].const != 0)

    @property
    def len(self):
        n = getattr(self, "_len", None)
        if n is None:
            n = ZERO
            for s in self.segs:
                n = n + s[0]
            self._len = n
        return n

    def __repr__(self):
        return "[" + " | ".join("%s:%s" % (s[1], ",".join(sh(x) for x in s[2:]) +
                                           ("" if s[1] == "e" else " x" + show(s[0]))) for s in self.segs) + "]"


class Opq(V):
    """unknown value of a type, identified by name"""
    __slots__ = ("ty", "name")
    _f = ("ty", "name")

    def __init__(self, ty, name):
        self.ty = ty
        self.name = name

    def __repr__(self):
        return "?%s" % sh(self.name)


class MapV(V):
    """hash map: opaque base contents plus insertions"""
    __slots__ = ("ty", "base", "ins")
    _f = ("ty", "base", "ins")

    def __init__(self, ty, base, ins=()):
        self.ty = ty
        self.base = base
        self.ins = tuple(ins)


class FnV(V):
    """function item / constructor as a value"""
    __slots__ = ("callee",)
    _f = ()

    def __init__(self, callee):
        self.callee = callee

    def key(self):
        return ("FnV", self.callee.get("path"), tuple(self.callee.get("targs", ())))

    def deep_atoms(self):
        return frozenset()

    def rewrite(self, m, memo):
        return self


class Cond(V):
    """boolean: op in ge/eq/ne (on a linear form), and/or (tuple of Cond/bool)"""
    __slots__ = ("op", "a")
    _f = ("op", "a")

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __repr__(self):
        if self.op in ("ge", "eq", "ne"):
            return "%s %s 0" % (self.a, {"ge": ">=", "eq": "==", "ne": "!="}[self.op])
        return "(%s)" % (" %s " % self.op).join(map(str, self.a))

    def rewrite(self, m, memo):
        if self.op in ("ge", "eq", "ne"):
            return mkc(self.op, rewrite(self.a, m, memo))
        return (conj if self.op == "and" else disj)([rewrite(x, m, memo) if not isinstance(x, bool) else x
                                                     for x in self.a])


def mkc(op, l):
    lo, hi = l.range()
    if op == "ge":
        if lo >= 0:
            return True
        if hi < 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return op == "ne"
        if lo == hi == 0:
            return op == "eq"
    return Cond(op, l)


def ge(a, b):
    return mkc("ge", a - b)


def lt(a, b):
    return mkc("ge", b - a - 1)


def eq(a, b):
    return mkc("eq", a - b)


def ne(a, b):
    return mkc("ne", a - b)


def negc(c):
    if isinstance(c, bool):
        return not c
    if c.op == "ge":
        return mkc("ge", -c.a - 1)
    if c.op == "eq":
        return mkc("ne", c.a)
    if c.op == "ne":
        return mkc("eq", c.a)
    if c.op == "and":
        return disj([negc(x) for x in c.a])
    return conj([negc(x) for x in c.a])


def conj(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if isinstance(x, Cond) and x.op == "and":
            out += list(x.a)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def disj(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if isinstance(x, Cond) and x.op == "or":
            out += list(x.a)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


class Ev:
    """an observable effect"""
    __slots__ = ("kind", "obj", "ok", "d", "site")

    def __init__(self, kind, obj, ok, site, **d):
        self.kind = kind
        self.obj = obj
        self.ok = ok
        self.site = site
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s%s@%s(%s)" % (self.kind, "" if self.ok else "!", sh(self.obj),
                                ", ".join("%s=%s" % (k, sh(v)) for k, v in self.d.items()))


class State:
    __slots__ = ("cells", "facts", "nes", "sub", "log", "ver", "notes", "_pc")

    def __init__(self):
        self.cells = {}
        self.facts = ()
        self.nes = ()
        self.sub = {}
        self.log = ()
        self.ver = {}
        self.notes = ()
        self._pc = None

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = self.facts
        s.nes = self.nes
        s.sub = self.sub
        s.log = self.log
        s.ver = dict(self.ver)
        s.notes = self.notes
        s._pc = self._pc
        return s

    # ---- normal forms
    def norm(self, x):
        if not self.sub:
            return x
        for _ in range(8):
            y = rewrite(x, self.sub, {})
            if y is x or y == x:
                return y
            x = y
        return x

    def known(self, a, i):
        """value of bit i of atom a under the facts, or None"""
        for s, v in self.sub.items():
            if v.const is None:
                continue
            if s is a:
                return (v.const >> i) & 1
            if s.kind == "sl" and s.args[0] is a and s.args[1] <= i < s.args[2]:
                return (v.const >> (i - s.args[1])) & 1
        return None

    def bits(self, x, n):
        x = self.norm(x)
        b = bits(x, n, self.known)
        if b is None:
            # low bits that the constant alone decides
            g = 0
            for _, k in x.t:
                g |= k
            p = (g & -g).bit_length() - 1
            if 0 < p < n and x.t:
                lowc = x.c % (1 << p)
                h = L((x.c - lowc) >> p, tuple((a, k >> p) for a, k in x.t))
                return [(lowc >> i) & 1 for i in range(p)] + self.bits(h, n - p)
            # name the two's complement image of x
            y = strip_mod(x, n)
            u = atom("u", (y, n), 0, (1 << n) - 1)
            if self.prove(y) and self.prove(C((1 << n) - 1) - y):
                for f in (A(u) - y, y - A(u)):
                    if f not in self.facts:
                        self.facts = self.facts + (f,)
                        self._pc = None
            b = [(u, i, False) for i in range(n)]
            b = [_kn(self.known, z) for z in b]
        return b

    # ---- entailment
    def prove(self, l):
        """facts |= l >= 0"""
        l = self.norm(l)
        lo, hi = l.range()
        if lo >= 0:
            return True
        if hi < 0:
            return False
        for f in self.facts:
            d = l - f
            if d.const is not None and d.const >= 0:
                return True
        if self._pc is None:
            self._pc = {}
        r = self._pc.get(l)
        if r is None:
            tick()
            r = lin.refute(self.facts, -l - 1)
            if not r:
                # integer reasoning with disequalities: l+1>=0 and l+1 != 0
                l1 = l + 1
                for n in self.nes:
                    if n == l1 or n == -l1:
                        if self.prove(l1):
                            r = True
                            break
            if not r:
                fs = self._lemmas(l)
                if fs:
                    r = lin.refute(self.facts + fs, -l - 1)
            self._pc[l] = r
        return r

    def _lemmas(self, l):
        """bounds on the canonical ILInt lengths in l that the bounds of their arguments imply"""
        out = ()
        for a, _ in l.t:
            if a.kind == "fn" and a.args[0] == "es":
                k = ("es", a)
                if k not in self._pc:
                    self._pc[k] = ()
                    x = a.args[1] if isinstance(a.args[1], L) else A(a.args[1])
                    f = ()
                    lo, hi = a.lo, a.hi
                    while hi > lo and self.prove(C(_eslim(hi - 1)) - x):
                        hi -= 1
                    while lo < hi and self.prove(x - _eslim(lo) - 1):
                        lo += 1
                    if hi < a.hi:
                        f += (C(hi) - A(a),)
                    if lo > a.lo:
                        f += (A(a) - lo,)
                    self._pc[k] = f
                out += self._pc[k]
        sums = {a for f in (l,) + tuple(self.facts) for a, _ in f.t if a.kind == "sum"}
        mine = {a for a, _ in l.t if a.kind == "sum"}
        for a in mine:
            for b in sums:
                if a is not b:
                    out += self._sumpair(a, b) + self._sumpair(b, a)
        for a, _ in l.t:
            if a.kind == "fn" and a.hi > (1 << 20):
                for b in sums:
                    out += self._elsum(a, b)
        return out

    def _elsum(self, x, b):
        """g(i) <= sum(n, g) when i < n and g >= 0"""
        k = ("elsum", x, b)
        if k in self._pc:
            return self._pc[k]
        self._pc[k] = ()
        n, v, g = b.args
        if len(g.t) != 1 or g.t[0][1] != 1 or g.c or g.range()[0] < 0:
            return ()
        i = [None]
        if not _match(g.t[0][0], x, v, i) or i[0] is None:
            return ()
        i = i[0]
        f = ()
        if len(i.t) == 1 and i.c == 0 and i.t[0][1] == 1 and i.t[0][0].kind == "fn" and i.t[0][0].args[0] == "perm":
            p = i.t[0][0]
            if self.same(p.args[2], n):
                i = p.args[3]
        if self.prove(i) and self.prove(n - i - 1):
            f = (A(b) - A(x),)
        self._pc[k] = f
        return f

    def _sumpair(self, a, b):
        """sum(n1, g) <= sum(n2, g) - g(n1) when n1 < n2 and g >= 0 (g may go through a permutation of 0..n2)"""
        n1, v1, g1 = a.args
        n2, v2, g2 = b.args
        k = ("sum", a, b)
        if k in self._pc:
            return self._pc[k]
        self._pc[k] = ()
        lo = g1.range()[0]
        if lo < 0 or g2.range()[0] < 0:
            return ()
        f = ()
        import models
        full = models.mksum(n2, v1, g1)
        if full == A(b) and self.prove(n2 - n1 - 1):
            f = (A(b) - A(a) - rewrite(g1, {v1: n1}, {}),)
        elif full == A(b) and self.prove(n2 - n1):
            f = (A(b) - A(a),)
        self._pc[k] = f
        return f

    def decide(self, c):
        """True/False if the condition is decided by the facts, else None"""
        if isinstance(c, bool):
            return c
        if c.op == "ge":
            if self.prove(c.a):
                return True
            if self.prove(-c.a - 1):
                return False
            return None
        if c.op in ("eq", "ne"):
            r = self._deq(c.a)
            if r is None:
                return None
            return r if c.op == "eq" else (not r)
        rs = [self.decide(x) for x in c.a]
        if c.op == "and":
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None

    def _deq(self, l):
        l = self.norm(l)
        if l.const is not None:
            return l.const == 0
        lo, hi = l.range()
        if lo > 0 or hi < 0:
            return False
        if l in self.nes or -l in self.nes:
            return False
        if self.prove(l - 1) or self.prove(-l - 1):
            return False
        if self.prove(l) and self.prove(-l):
            return True
        # bit-level equality of two sides
        if len(l.t) <= 8:
            p = L(max(l.c, 0), tuple((a, k) for a, k in l.t if k > 0))
            q = -L(min(l.c, 0), tuple((a, k) for a, k in l.t if k < 0))
            for n in (64,):
                if 0 <= p.range()[0] and p.range()[1] <= U64 and 0 <= q.range()[0] and q.range()[1] <= U64:
                    bp, bq = self.bits(p, n), self.bits(q, n)
                    if bp is not None and bp == bq:
                        return True
                    if bp is not None and bq is not None:
                        for x, y in zip(bp, bq):
                            if x in (0, 1) and y in (0, 1) and x != y:
                                return False
        return None

    def same(self, a, b):
        return self.decide(eq(a, b)) is True

    # ---- assumption; returns False when the state becomes infeasible
    def assume(self, c):
        if isinstance(c, bool):
            return c
        d = self.decide(c)
        if d is not None:
            return d
        if c.op == "and":
            return all(self.assume(x) for x in c.a)
        if c.op == "or":
            live = [x for x in c.a if self.decide(x) is not False]
            if len(live) == 1:
                return self.assume(live[0])
            if not live:
                return False
            raise Split(list(live))
        self._pc = None
        l = self.norm(c.a)
        if c.op == "ge":
            self._addge(l)
            if self.prove(-l):
                return self._addeq(l)
            return True
        if c.op == "eq":
            return self._addeq(l)
        # ne
        if len(l.t) == 1:
            a, k = l.t[0]
            if a.hi - a.lo == 1:
                # two-valued atom
                for v in (a.lo, a.hi):
                    if k * v + l.c == 0:
                        o = a.lo + a.hi - v
                        return self._addeq(A(a) - o)
        self.nes = self.nes + (l,)
        if self.prove(l):
            self._addge(l - 1)
        elif self.prove(-l):
            self._addge(-l - 1)
        return True

    def _addge(self, l):
        self._pc = None
        if l in self.facts:
            return
        self.facts = self.facts + (l,)
        if len(l.t) == 1:
            a, k = l.t[0]
            # sign knowledge <-> top bit of the two's complement image
            if a.lo < 0 and abs(k) == 1:
                w = _sw(a)
                if w:
                    top = slice_atom(atom("u", (A(a), w), 0, (1 << w) - 1), w - 1, w)
                    if k == 1 and l.c <= 0:
                        self._sub1(top, ZERO)
                    elif k == -1 and l.c <= -1:
                        self._sub1(top, ONE)

    def _sub1(self, a, v):
        if a in self.sub:
            return
        s = dict(self.sub)
        s[a] = v
        self.sub = s
        self._renorm()

    def _addeq(self, l):
        self._pc = None
        l = self.norm(l)
        if l.const is not None:
            return l.const == 0
        best = None
        for a, k in l.t:
            if abs(k) != 1:
                continue
            rest = (l - A(a) * k) * (-k)      # a = rest
            if a in rest.deep_atoms():
                continue
            score = (rest.const is not None, a.kind not in ("sl", "sum"), a.id)
            if best is None or score > best[0]:
                best = (score, a, rest)
        if best is None and len(l.t) == 1:
            a, k = l.t[0]
            if l.c % k:
                return False
            best = (None, a, C(-l.c // k))
        if best is None:
            self._addge(l)
            self._addge(-l)
            return True
        _, a, rest = best
        lo, hi = rest.range()
        if lo < a.lo:
            if not self._feas(rest - a.lo):
                return False
        if hi > a.hi:
            if not self._feas(C(a.hi) - rest):
                return False
        s = {k: rewrite(v, {a: rest}, {}) for k, v in self.sub.items()}
        s[a] = rest
        self.sub = s
        if a.kind == "sl" and rest.const is not None:
            b = a.args[0]
            if b.kind == "u" and a.args[2] == b.args[1] == a.args[1] + 1:
                # top bit of a two's complement image: sign of the argument
                x = b.args[0]
                w = b.args[1]
                lo, hi = x.range()
                if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    f = x if rest.const == 0 else -x - 1
                    if f not in self.facts:
                        self.facts = self.facts + (f,)
        if a.kind == "div" or a.kind == "sl" and a.args[1] > 0 and a.args[0].lo >= 0 and a.args[2] >= width(a.args[0]):
            # the quotient is known: so is the range of what was divided
            x, m = (a.args[0], a.args[1]) if a.kind == "div" else (A(a.args[0]), 1 << a.args[1])
            for f in (x - rest * m, rest * m + (m - 1) - x):
                if f not in self.facts:
                    self.facts = self.facts + (f,)
        return self._renorm()

    def _feas(self, f):
        if self.prove(-f - 1):
            return False
        self.facts = self.facts + (f,)
        self._pc = None
        return True

    def _renorm(self):
        self._pc = None
        out = []
        for f in self.facts:
            g = self.norm(f)
            lo, hi = g.range()
            if hi < 0:
                return False
            if lo >= 0:
                continue
            if g not in out:
                out.append(g)
        self.facts = tuple(out)
        no = []
        for n in self.nes:
            g = self.norm(n)
            if g.const is not None:
                if g.const == 0:
                    return False
                continue
            no.append(g)
        self.nes = tuple(no)
        return True


def _eslim(n):
    """largest value whose canonical ILInt has n bytes"""
    return 0xF7 if n == 1 else 0xF8 + (1 << (8 * (n - 1))) - 1


def _sw(a):
    for w in (8, 16, 32, 64):
        if a.lo >= -(1 << (w - 1)) and a.hi < (1 << (w - 1)):
            return w
    return None
