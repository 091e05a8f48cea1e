"""Confirmation of alarms.

An obligation that the domain cannot prove is reported as a violation only if
the abstract path that reaches it is exhibited by one concrete valuation of the
symbolic inputs: every path fact holds under the valuation and the obligation
does not.  Evaluation is of abstract-domain terms; no code of the analysed
crate is run.  Without such a valuation the obligation is 'undecided'.
"""
import random, time
from terms import *
from values import *
from models import es_const, tainted

BIG = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 127, 128, 255, 256, 0xF7, 0xF8, 0xF9, 0xFF, 0x100, 0x1F7, 0x1F8,
       0xFFFF, 0x10000, 0x100F7, 0x100F8, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 1 << 29, (1 << 29) + 1,
       (1 << 63) - 1, 1 << 63, U64, U64 - 7, U64 - 8, U64 - 0xF8, U64 - 0xF7]


TAIL = 40       # valuations are constant from this index on


class NoEval(Exception):
    pass


def occurrences(x, bv):
    """the linear forms inside x (below the top level) in which bv occurs directly"""
    out = set()
    seen = set()

    def go(x, top):
        if isinstance(x, L):
            if any(a is bv for a, _ in x.t):
                out.add(x)
            for a, _ in x.t:
                if a is not bv and bv in a.deep and a not in seen:
                    seen.add(a)
                    go(a.args, False)
        elif isinstance(x, Atom):
            if x is bv:
                out.add(A(bv))
            elif bv in x.deep and x not in seen:
                seen.add(x)
                go(x.args, False)
        elif isinstance(x, tuple):
            for y in x:
                go(y, False)
        elif hasattr(x, "_f"):
            for f in x._f:
                go(getattr(x, f), False)
    go(x, True)
    return out


class Val:
    """a lazily built valuation of base atoms"""

    def __init__(self, rng, consts, small):
        self.rng = rng
        self.base = {}
        self.consts = consts
        self.small = small
        self.bv = {}
        self.dom = {}

    def pick(self, lo, hi):
        r = self.rng.random()
        if r < self.small:
            v = self.rng.choice((0, 1, 2, 3, 4, 5, 6)) + max(lo, 0) if hi >= 0 else hi
        elif r < self.small + 0.2 and self.consts:
            v = self.rng.choice(self.consts) + self.rng.choice((-1, 0, 1))
        elif r < self.small + 0.35:
            v = self.rng.choice(BIG)
            if lo < 0 and self.rng.random() < 0.5:
                v = -v
        elif r < self.small + 0.42:
            v = self.rng.choice((lo, hi))
        else:
            v = self.rng.randint(lo, hi)
        return min(max(v, lo), hi)

    # ---- names
    def name(self, x, seg=False):
        if isinstance(x, L):
            return min(self.lin(x), TAIL) if not seg else self.lin(x)
        if isinstance(x, Atom):
            return min(self.val(x), TAIL) if not seg else self.val(x)
        if isinstance(x, tuple):
            seg = seg or (len(x) > 0 and x[0] == "seg")
            return tuple(self.name(y, seg) for y in x)
        if isinstance(x, Seq) or isinstance(x, Struct) or isinstance(x, Enum):
            return (x.__class__.__name__,) + tuple(self.name(getattr(x, f)) if not isinstance(getattr(x, f), str)
                                                   else getattr(x, f) for f in x._f)
        return x

    def key(self, a):
        if a.kind == "el":
            nm, idx = a.args
            return ("el", self.name(nm), min(self.lin(idx), TAIL))
        if a.kind == "fn":
            return ("fn",) + self.name(a.args)
        return (a.kind,) + self.name(a.args)

    def get(self, k, a):
        v = self.base.get(k)
        if v is None:
            v = self.pick(a.lo, a.hi)
            self.base[k] = v
        return v

    @staticmethod
    def tagparts(a):
        return atom("fn", ("tag", "id", a.args[2]), 0, U64), atom("fn", ("tag", "vsize") + a.args[2:], 0, 1 << 62)

    # ---- evaluation
    def lin(self, x):
        r = x.c
        for a, k in x.t:
            r += k * self.val(a)
        return r

    def val(self, a):
        k = a.kind
        if k == "sl":
            return (self.val(a.args[0]) >> a.args[1]) & ((1 << (a.args[2] - a.args[1])) - 1)
        if k == "slx":
            return (self.lin(a.args[0]) >> a.args[1]) & ((1 << (a.args[2] - a.args[1])) - 1)
        if k == "u":
            return self.lin(a.args[0]) & ((1 << a.args[1]) - 1)
        if k == "s":
            v = self.lin(a.args[0]) & ((1 << a.args[1]) - 1)
            return v - (1 << a.args[1]) if v >> (a.args[1] - 1) else v
        if k == "div":
            return self.lin(a.args[0]) // a.args[1]
        if k == "rem":
            return self.lin(a.args[0]) % a.args[1]
        if k == "min":
            return min(self.lin(a.args[0]), self.lin(a.args[1]))
        if k == "prod":
            return self.lin(a.args[0]) * self.lin(a.args[1])
        if k == "bv":
            if a in self.bv:
                return self.bv[a]
            return self.get(("bv", a.args), a)
        if k == "sum":
            n, bv, g = a.args
            n = self.lin(n)
            old = self.bv.get(bv)
            t = 0
            m = max(n, 0)
            if n > TAIL:
                off = [x - A(bv) for x in occurrences(g, bv)]
                if any(x.const is None for x in off):
                    raise NoEval("long sum")
                # where every index is in the constant tail
                m = min(n, TAIL + max([0] + [-x.const for x in off]))
                self.bv[bv] = m
                t = (n - m) * self.lin(g)
            for i in range(m):
                self.bv[bv] = i
                t += self.lin(g)
            if old is None:
                self.bv.pop(bv, None)
            else:
                self.bv[bv] = old
            return t
        if k == "fn":
            nm = a.args[0]
            if nm == "es":
                x = a.args[1]
                v = self.lin(x) if isinstance(x, L) else self.val(x)
                return es_const(min(max(v, 0), U64))
            if nm == "perm":
                return self.lin(a.args[3]) if isinstance(a.args[3], L) else self.val(a.args[3])
            if nm == "tag" and a.args[1] == "size":
                i, vs = self.tagparts(a)
                i, vs = self.val(i), self.val(vs)
                return es_const(i) + (0 if i < 16 else es_const(vs)) + vs
            if nm == "clen":
                h = self.val(atom("el", (a.args[1], a.args[2]), 0, 255))
                return 1 if h < 0xF8 else h - 0xF6
            if nm == "dec":
                h = self.val(atom("el", (a.args[1], a.args[2]), 0, 255))
                if h < 0xF8:
                    return h
                x = 0
                for i in range(h - 0xF7):
                    x = x * 256 + self.val(atom("el", (a.args[1], a.args[2] + (i + 1)), 0, 255))
                x += 0xF8
                if x > U64:
                    raise NoEval("overflowing ilint")
                return x
        if k == "el" and isinstance(a.args[0], tuple) and a.args[0][:2] == ("seg", "ilint"):
            from interp import ilint_bytes
            b = ilint_bytes(min(max(self.lin(a.args[0][2]), 0), U64))
            i = self.lin(a.args[1]) if isinstance(a.args[1], L) else self.val(a.args[1])
            return b[i] if 0 <= i < len(b) else 0
        return self.get(self.key(a), a)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "ge":
            return self.lin(c.a) >= 0
        if c.op == "eq":
            return self.lin(c.a) == 0
        if c.op == "ne":
            return self.lin(c.a) != 0
        if c.op == "and":
            return all(self.cond(x) for x in c.a)
        return any(self.cond(x) for x in c.a)

    # ---- repair
    def setlin(self, x, v, depth=0):
        if depth > 6 or not x.t:
            return False
        ts = list(x.t)
        if len(ts) > 1 and self.rng.random() < 0.6 and self.greedy(x, v, depth):
            return True
        self.rng.shuffle(ts)
        for a, k in ts:
            rest = self.lin(x) - k * self.val(a)
            if (v - rest) % k:
                continue
            w = (v - rest) // k
            if w < a.lo or w > a.hi:
                continue
            if self.setatom(a, w, depth):
                return True
        # spread: push one atom to its limit and retry with the rest
        if len(ts) > 1:
            a, k = ts[0]
            if self.setatom(a, self.pick(a.lo, a.hi), depth):
                for b, j in ts[1:]:
                    rest = self.lin(x) - j * self.val(b)
                    if (v - rest) % j == 0 and b.lo <= (v - rest) // j <= b.hi and \
                            self.setatom(b, (v - rest) // j, depth):
                        return True
        return False

    def greedy(self, x, v, depth):
        """positional decomposition: large coefficients first"""
        rest = v - x.c
        ts = sorted(x.t, key=lambda t: -abs(t[1]))
        lo = sum(min(k * a.lo, k * a.hi) for a, k in ts)
        hi = sum(max(k * a.lo, k * a.hi) for a, k in ts)
        if not lo <= rest <= hi:
            return False
        plan = []
        for a, k in ts:
            lo -= min(k * a.lo, k * a.hi)
            hi -= max(k * a.lo, k * a.hi)
            # rest - k*w must stay in [lo, hi]
            if k > 0:
                w0, w1 = -((hi - rest) // k), (rest - lo) // k
            else:
                w0, w1 = -((rest - lo) // -k), (hi - rest) // -k
            w0, w1 = max(w0, a.lo), min(w1, a.hi)
            if w0 > w1:
                return False
            w = self.val(a) if w0 <= self.val(a) <= w1 and self.rng.random() < 0.5 else self.rng.choice((w0, w1))
            plan.append((a, w))
            rest -= k * w
        if rest:
            return False
        for a, w in plan:
            if self.val(a) != w and not self.setatom(a, w, depth + 1):
                return False
        return True

    def setatom(self, a, v, depth=0):
        if v < a.lo or v > a.hi or depth > 8:
            return False
        k = a.kind
        if k == "sl":
            b, lo, hi = a.args
            old = self.val(b)
            m = ((1 << (hi - lo)) - 1) << lo
            return self.setatom(b, (old & ~m) | (v << lo), depth + 1)
        if k == "u":
            x, n = a.args
            lo, hi = x.range()
            for w in (v, v - (1 << n), v + (1 << n)):
                if lo <= w <= hi and self.setlin(x, w, depth + 1):
                    return True
            return False
        if k == "s":
            x, n = a.args
            for w in (v, v + (1 << n), v - (1 << n)):
                if self.setlin(x, w, depth + 1):
                    return True
            return False
        if k == "div":
            return self.setlin(a.args[0], v * a.args[1] + self.rng.randrange(a.args[1]), depth + 1)
        if k == "min":
            return self.setlin(a.args[self.rng.randrange(2)], v, depth + 1)
        if k == "prod":
            x, y = a.args
            if self.rng.random() < 0.5:
                x, y = y, x
            w = self.lin(y)
            if w == 0:
                if v != 0:
                    self.setlin(y, 1, depth + 1)
                    w = self.lin(y)
                if w == 0:
                    return v == 0
            return v % w == 0 and self.setlin(x, v // w, depth + 1)
        if k == "sum":
            n, bv, g = a.args
            nv = self.lin(n)
            if self.rng.random() < 0.5 or nv <= 0 or nv > TAIL:
                gl, gh = g.range()
                return self.setlin(n, v // gl if gl > 0 and self.rng.random() < 0.4 else self.rng.choice((0, 1, 2, 3)), depth + 1)
            i = self.rng.randrange(nv)
            cur = self.val(a)
            old = self.bv.get(bv)
            self.bv[bv] = i
            gi = self.lin(g)
            r = self.setlin(g, gi + v - cur, depth + 1)
            if old is None:
                self.bv.pop(bv, None)
            else:
                self.bv[bv] = old
            return r
        if k == "bv":
            if a in self.bv:
                return False
            self.base[("bv", a.args)] = v
            return True
        if k == "fn":
            nm = a.args[0]
            if nm == "es":
                x = a.args[1]
                x = x if isinstance(x, L) else A(x)
                ths = [0, 0xF8] + [0xF8 + (1 << (8 * i)) for i in range(1, 8)] + [U64 + 1]
                lo, hi = ths[v - 1], ths[v] - 1
                return self.setlin(x, self.rng.choice((lo, hi, self.rng.randint(lo, hi))), depth + 1)
            if nm == "clen":
                h = atom("el", (a.args[1], a.args[2]), 0, 255)
                return self.setatom(h, self.rng.randrange(0xF8) if v == 1 else v + 0xF6, depth + 1)
            if nm == "dec":
                st, i0 = a.args[1], a.args[2]
                if v < 0xF8 and self.rng.random() < 0.7:
                    return self.setatom(atom("el", (st, i0), 0, 255), v, depth + 1)
                if v < 0xF8:
                    return False
                m = es_const(v) - 1
                m = self.rng.randint(m, 8) if self.rng.random() < 0.3 else m
                ok = self.setatom(atom("el", (st, i0), 0, 255), 0xF7 + m, depth + 1)
                for i, b in enumerate((v - 0xF8).to_bytes(m, "big")):
                    ok = ok and self.setatom(atom("el", (st, i0 + (i + 1)), 0, 255), b, depth + 1)
                return ok
            if nm == "tag" and a.args[1] == "size":
                i, vs = self.tagparts(a)
                iv = self.val(i)
                for n in range(0, 10):
                    w = v - es_const(iv) - n
                    if w >= 0 and (0 if iv < 16 else es_const(w)) == n:
                        return self.setatom(vs, w, depth + 1)
                return False
            if nm == "perm":
                return False
        self.base[self.key(a)] = v
        return True

    def fix(self, c):
        if isinstance(c, bool):
            return
        if c.op == "and":
            bad = [x for x in c.a if not self.cond(x)]
            return self.fix(self.rng.choice(bad)) if bad else None
        if c.op == "or":
            return self.fix(self.rng.choice(c.a))
        cur = self.lin(c.a)
        if c.op == "eq":
            self.setlin(c.a, 0)
        elif c.op == "ge":
            self.setlin(c.a, self.rng.choice((0, 0, 0, 1, 2, self.rng.randint(0, 255), -cur)))
        else:
            self.setlin(c.a, self.rng.choice((1, -1, 2, 255, self.rng.randint(-1000, 1000))))


def search(st, goal, seed=1, tries=160, steps=60, extra=()):
    """a valuation under which the facts of `st` and the condition `goal` hold, or None"""
    cons = [Cond("ge", f) for f in st.facts] + [Cond("ne", n) for n in st.nes]
    for a, r in st.sub.items():
        cons.append(Cond("eq", A(a) - r))
    cons += [c for c in extra if not isinstance(c, bool)]
    if goal is False or any(c is False for c in extra):
        return None
    if goal is not True:
        cons.append(goal)
    atoms = set()
    for c in cons:
        atoms |= c.deep_atoms()
    # atoms whose evaluation depends on a bound variable are range-checked only where free
    bvs = {x.args[1] for x in atoms if x.kind == "sum"}
    free = [a for a in atoms if not (a.deep & bvs)]
    consts = sorted({abs(k) for c in cons for k in _consts(c)})[:40]
    free.sort(key=lambda a: a.id)
    t0 = time.time()
    for t in range(tries):
        if time.time() - t0 > 3 and t > 10 or spent[0] > CAP[0]:
            break
        rng = random.Random((seed << 20) + t)
        v = Val(rng, consts, rng.choice((0.1, 0.4, 0.8)))
        if t % 8 == 7:
            v.small = 1.0           # everything small except what the facts force to be large
        try:
            for _ in range(steps):
                bad = [c for c in cons if not v.cond(c)]
                if not bad:
                    rb = [a for a in free if not (a.lo <= v.val(a) <= a.hi)]
                    if not rb:
                        return v
                    a = rng.choice(rb)
                    v.setatom(a, min(max(v.val(a), a.lo), a.hi))
                    continue
                v.fix(rng.choice(bad))
        except NoEval:
            continue
        except (OverflowError, RecursionError, ZeroDivisionError):
            continue
    spent[0] += time.time() - t0
    return None


spent = [0.0]
CAP = [150.0]


def _consts(c):
    if c.op in ("ge", "eq", "ne"):
        yield c.a.c
        for a in c.a.deep_atoms():
            if a.kind == "in" and a.hi < U64:
                yield a.hi
    else:
        for x in c.a:
            if not isinstance(x, bool):
                yield from _consts(x)


def taint(st, goal):
    xs = [goal] if not isinstance(goal, bool) else []
    return tainted(tuple(xs) + tuple(st.facts) + tuple(st.nes) + tuple(st.sub.keys()) + tuple(st.sub.values()))


def describe(v, atoms):
    out = []
    for a in sorted(atoms, key=lambda a: a.id):
        try:
            out.append("%s=%s" % (show_atom(a), v.val(a)))
        except Exception:
            pass
    return ", ".join(out[:24])
