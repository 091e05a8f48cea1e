"""Integer terms of the abstract domain.

An integer value is a linear form  c + sum(k_i * atom_i)  over interned atoms
(class L).  Atoms carry an interval; bit slices of atoms are atoms too, so that
shifting/masking stays exact and endianness is visible in the term.
"""
import time
from math import gcd

U64 = (1 << 64) - 1
LENMAX = (1 << 63) - 1


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "deep", "_r")

    def __repr__(self):
        return show_atom(self)


_tab = {}
_atoms = []


def atom(kind, args, lo, hi):
    key = (kind, args, lo, hi) if kind == "in" else (kind, args)
    a = _tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        d = set()
        _deep(args, d)
        d.add(a)
        a.deep = frozenset(d)
        _atoms.append(a)
        _tab[key] = a
    return a


def _deep(x, d):
    if isinstance(x, L):
        for a, _ in x.t:
            d |= a.deep
    elif isinstance(x, Atom):
        d |= x.deep
    elif isinstance(x, tuple):
        for y in x:
            _deep(y, d)
    else:
        dd = getattr(x, "deep_atoms", None)
        if dd is not None:
            d |= dd()


class L:
    """c + sum k*a ; t is a tuple of (atom, coef) sorted by atom id."""
    __slots__ = ("c", "t", "_h", "_deep")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, tuple((a.id, k) for a, k in t)))
        self._deep = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, L) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def deep_atoms(self):
        if self._deep is None:
            d = set()
            for a, _ in self.t:
                d |= a.deep
            self._deep = frozenset(d)
        return self._deep

    @property
    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        if isinstance(o, int):
            return L(self.c + o, self.t)
        return _mk(self.c + o.c, list(self.t) + list(o.t))

    __radd__ = __add__

    def __neg__(self):
        return L(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return L(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return L(0)
        return L(self.c * k, tuple((a, x * k) for a, x in self.t))

    __rmul__ = __mul__

    def range(self):
        lo = hi = self.c
        for a, k in self.t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        return lo, hi

    def coef(self, a):
        for x, k in self.t:
            if x is a:
                return k
        return 0

    def single(self):
        """the atom if this is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        return show(self)


ZERO = L(0)
ONE = L(1)


def C(n):
    return L(n)


def A(a):
    return L(0, ((a, 1),))


def _mk(c, items):
    d = {}
    for a, k in items:
        d[a] = d.get(a, 0) + k
    return _canon(c, d)


def _canon(c, d):
    # merge adjacent bit slices  2^p*sl(b,l,m) + 2^(p+m-l)*sl(b,m,h)
    sl = [a for a, k in d.items() if k and a.kind == "sl"]
    if len(sl) > 1:
        by = {}
        for a in sl:
            by.setdefault(a.args[0], []).append(a)
        for b, xs in by.items():
            changed = True
            while changed and len(xs) > 1:
                changed = False
                xs.sort(key=lambda a: a.args[1])
                for x in xs:
                    for y in xs:
                        if x is not y and x.args[2] == y.args[1] and d.get(x) and \
                                d.get(y) == d[x] << (x.args[2] - x.args[1]):
                            k = d.pop(x)
                            d.pop(y)
                            z = slice_atom(b, x.args[1], y.args[2])
                            d[z] = d.get(z, 0) + k
                            xs.remove(x)
                            xs.remove(y)
                            if z.kind == "sl":
                                xs.append(z)
                            changed = True
                            break
                    if changed:
                        break
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id))
    return L(c, t)


# ---------------------------------------------------------------- bit slices
def width(a):
    """number of bits of a non-negative atom"""
    return max(a.hi.bit_length(), 1) if a.hi > 0 else 0


def slice_atom(b, lo, hi):
    """bits lo..hi of the non-negative atom b, as an atom (b itself if full)"""
    w = width(b)
    hi = min(hi, w)
    if lo == 0 and hi >= w:
        return b
    if b.kind == "sl":
        return slice_atom(b.args[0], b.args[1] + lo, b.args[1] + hi)
    return atom("sl", (b, lo, hi), 0, (1 << (hi - lo)) - 1)


def umod(x, n):
    """x mod 2^n as a linear form"""
    lo, hi = x.range()
    if lo >= 0 and hi < (1 << n):
        return x
    x = strip_mod(x, n)
    lo, hi = x.range()
    if lo >> n == hi >> n:
        return x - ((lo >> n) << n)
    if x.const is not None:
        return C(x.c & ((1 << n) - 1))
    b = bits(x, n)
    if b is not None:
        r = from_bits(b)
        if r is not None:
            return r
    return A(atom("u", (x, n), 0, (1 << n) - 1))


def smod(x, n):
    lo, hi = x.range()
    h = 1 << (n - 1)
    if lo >= -h and hi < h:
        return x
    x = strip_mod(x, n, False)
    lo, hi = x.range()
    if (lo + h) >> n == (hi + h) >> n:
        return x - (((lo + h) >> n) << n)
    if x.const is not None:
        v = x.c & ((1 << n) - 1)
        return C(v - (1 << n) if v >= h else v)
    a = x.single()
    if a is not None and a.kind == "u" and a.args[1] == n:
        x = a.args[0]
        lo, hi = x.range()
        if lo >= -h and hi < h:
            return x
    return A(atom("s", (x, n), -h, h - 1))


def strip_mod(x, n, both=True):
    """x mod 2^n is unchanged by replacing inner mod-2^m (m>=n) atoms by their argument"""
    if any((a.kind in ("u", "s") and a.args[1] >= n) for a, _ in x.t):
        c, items = x.c, []
        for a, k in x.t:
            if a.kind in ("u", "s") and a.args[1] >= n:
                c += k * a.args[0].c
                items += [(b, k * j) for b, j in a.args[0].t]
            else:
                items.append((a, k))
        x = _mk(c, items)
    m = 1 << n
    c = x.c % m if not (-m < x.c < m) else x.c
    t = []
    for a, k in x.t:
        if k % m == 0:
            continue
        t.append((a, k if -m < k < m else k % m))
    return _mk(c, t)


def bits(x, n, known=None):
    """two's complement bits of x modulo 2^n, LSB first, or None.

    A bit is 0, 1 or (atom, index, negated).  `known(atom, i)` may give the
    value of a bit under the current facts.
    """
    m = 1 << n
    c = x.c % m
    items = [(a, k % m) for a, k in x.t if k % m]
    if not items:
        return [(c >> i) & 1 for i in range(n)]
    out = [0] * n
    used = [False] * n
    ok = True
    for a, k in items:
        p = k.bit_length() - 1
        if k != 1 << p:
            ok = False
            break
        ab = atom_bits(a, n, known)
        if ab is None:
            ok = False
            break
        for i, b in enumerate(ab):
            if p + i >= n:
                break
            if b == 0:
                continue
            if used[p + i]:
                ok = False
                break
            out[p + i] = b
            used[p + i] = True
        if not ok:
            break
    if ok:
        for i in range(n):
            if (c >> i) & 1:
                if used[i]:
                    ok = False
                    break
                out[i] = 1
        if ok:
            return out
    # complement form:  -1 - y
    y = L((-1 - x.c) % m, tuple((a, (-k) % m) for a, k in x.t))
    allneg = all(((-k) % m) & (((-k) % m) - 1) == 0 for _, k in x.t)
    if allneg and not getattr(bits, "_rec", False):
        bits._rec = True
        try:
            yb = bits(y, n, known)
        finally:
            bits._rec = False
        if yb is not None:
            return [neg(b) for b in yb]
    return None


def neg(b):
    if b == 0:
        return 1
    if b == 1:
        return 0
    return (b[0], b[1], not b[2])


def atom_bits(a, n, known):
    if a.kind == "sl":
        base, lo, hi = a.args
        r = [(base, i, False) for i in range(lo, hi)]
    elif a.lo >= 0:
        r = [(a, i, False) for i in range(width(a))]
    else:
        # signed atom: use its two's complement image as the bit base
        if -(1 << 63) <= a.lo and a.hi < (1 << 63):
            w = 64
            for ww in (8, 16, 32, 64):
                if a.lo >= -(1 << (ww - 1)) and a.hi < (1 << (ww - 1)):
                    w = ww
                    break
            if n < w:
                w2 = n
            else:
                w2 = w
            if a.kind == "s" and a.args[1] == w:
                base = umod(a.args[0], w)
                bb = bits(base, w2, known)
                if bb is None:
                    return None
                r = bb
            else:
                ub = atom("u", (A(a), w), 0, (1 << w) - 1)
                r = [(ub, i, False) for i in range(w2)]
            if n > w:
                r = list(r) + [r[w - 1]] * (n - w)  # sign extension
        else:
            return None
    if known is not None:
        r = [b if b in (0, 1) else _kn(known, b) for b in r]
    return r


def _kn(known, b):
    v = known(b[0], b[1])
    if v is None:
        return b
    return (1 - v) if b[2] else v


def from_bits(bs):
    """linear form of an exact bit vector (unsigned)"""
    c = 0
    d = {}
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if b is None:
            return None
        if b == 0:
            i += 1
            continue
        if b == 1:
            c += 1 << i
            i += 1
            continue
        j = i
        while j + 1 < n and isinstance(bs[j + 1], tuple) and bs[j + 1][0] is b[0] and \
                bs[j + 1][1] == b[1] + (j + 1 - i) and bs[j + 1][2] == b[2]:
            j += 1
        ln = j - i + 1
        s = slice_atom(b[0], b[1], b[1] + ln)
        if b[2]:
            c += ((1 << ln) - 1) << i
            d[s] = d.get(s, 0) - (1 << i)
        else:
            d[s] = d.get(s, 0) + (1 << i)
        i = j + 1
    return _canon(c, d)


# ---------------------------------------------------------------- rewriting
def rewrite(x, m, memo=None):
    """replace atoms by linear forms (m: Atom -> L), rebuilding nested terms"""
    if memo is None:
        memo = {}
    if isinstance(x, L):
        if not (x.deep_atoms() & m.keys()):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        c = x.c
        acc = L(c)
        for a, k in x.t:
            acc = acc + rewrite_atom(a, m, memo) * k
        memo[x] = acc
        return acc
    if isinstance(x, Atom):
        return rewrite_atom(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_rwx(y, m, memo) for y in x)
    f = getattr(x, "rewrite", None)
    if f is not None:
        return f(m, memo)
    return x


def _rwx(y, m, memo):
    if isinstance(y, Atom):
        # bare atoms inside tuples are bit bases and the like
        r = rewrite_atom(y, m, memo)
        s = r.single()
        return s if s is not None else r
    return rewrite(y, m, memo)


REBUILD = {}


def rewrite_atom(a, m, memo):
    if a in m:
        return m[a]
    if not (a.deep & m.keys()):
        return A(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "sl":
        base, lo, hi = a.args
        nb = rewrite_atom(base, m, memo)
        r = slice_lin(nb, lo, hi, width(base))
    elif a.kind == "u":
        r = umod(rewrite(a.args[0], m, memo), a.args[1])
    elif a.kind == "s":
        r = smod(rewrite(a.args[0], m, memo), a.args[1])
    elif a.kind in REBUILD:
        r = REBUILD[a.kind](a, m, memo)
    else:
        args = tuple(_rwx(y, m, memo) for y in a.args)
        r = A(atom(a.kind, args, a.lo, a.hi))
    memo[a] = r
    return r


def slice_lin(x, lo, hi, w=64):
    """bits lo..hi of the non-negative form x (known < 2^w)"""
    b = bits(x, max(w, hi))
    if b is not None:
        r = from_bits(b[lo:hi])
        if r is not None:
            return r
    s = x.single()
    if s is not None and s.lo >= 0:
        return A(slice_atom(s, lo, hi))
    return A(atom("slx", (x, lo, hi), 0, (1 << (hi - lo)) - 1))


# ---------------------------------------------------------------- printing
def show(x):
    if not x.t:
        return _num(x.c)
    ps = []
    for a, k in x.t:
        s = show_atom(a)
        ps.append(s if k == 1 else "%s*%s" % (_num(k), s))
    if x.c:
        ps.append(_num(x.c))
    return " + ".join(ps)


def _num(n):
    return hex(n) if abs(n) > 0xFFFF else str(n)


def sh(x):
    if isinstance(x, tuple):
        return "(" + ",".join(sh(y) for y in x) + ")"
    return str(x)


def show_atom(a):
    if a.kind == "sl":
        return "%s[%d..%d]" % (show_atom(a.args[0]), a.args[1], a.args[2])
    if a.kind == "in":
        return str(a.args[0]) if not isinstance(a.args[0], tuple) else sh(a.args[0])
    if a.kind == "el":
        return "%s[%s]" % (sh(a.args[0]), show(a.args[1]))
    return "%s(%s)" % (a.kind, ",".join(sh(y) for y in a.args))


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def fresh(tag, lo, hi):
    return A(atom("fr", (tag, uid()), lo, hi))


class Deadline(BaseException):
    """the time given to one run of the analysis is used up"""


_limit = [float("inf")]


def set_deadline(t):
    _limit[0] = t


def tick(now=time.monotonic):
    if now() > _limit[0]:
        raise Deadline()


def fn(name, args, lo=0, hi=U64):
    return A(atom("fn", (name,) + tuple(args), lo, hi))
