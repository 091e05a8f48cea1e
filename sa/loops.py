"""Loops: natural-loop discovery, bounded unrolling and inductive summaries.

A summary describes the state at the head of iteration `it` by closed forms
(x0 + c*it, x0 + sum of a per-iteration term), repetition segments for
sequences, or an uninterpreted recurrence value; it is accepted only after the
analysed body has been shown to map the description at `it` to the description
at `it+1` on every path that returns to the loop head.
"""
from terms import *
from values import *
from models import mksum, mkprod

MAXU = 17          # undetermined iterations unrolled when a summary is not exact
MANY = 24          # after so many determined iterations a closed form is tried
MAXC = 1100        # determined iterations unrolled


# ---------------------------------------------------------------- structure
def succs(t):
    if t is None:
        return []
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[3]] + [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def analyse(fn):
    n = len(fn.blocks)
    succ = [succs(b[1]) if b else [] for b in fn.blocks]
    # dominators over reachable blocks
    order = []
    seen = set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen and fn.blocks[x] is not None:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for x in succ[b]:
            if x in pred:
                pred[x].append(b)
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for h in succ[b]:
            if h in idx and dom(h, b):
                body = loops.setdefault(h, {h})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += pred[x]
    fn.loops = loops
    fn.taken, fn.live = liveness(fn, order, succ)


def _places(x, uses):
    """locals mentioned in an operand/rvalue structure"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and not isinstance(x[0], bool):
            uses.add(x[0])
            for e in x[1]:
                if e[0] == "i":
                    uses.add(e[1])
            return
        for y in x:
            _places(y, uses)


def liveness(fn, order, succ):
    taken = set()
    use, dfn = {}, {}
    for b in order:
        u, d = set(), set()
        stmts, term = fn.blocks[b]
        for s in stmts:
            if s[0] == "=":
                x = set()
                _places(s[2], x)
                if s[2][0] in ("ref", "raw") and not any(e[0] == "*" for e in s[2][2][1]):
                    taken.add(s[2][2][0])
                pl = s[1]
                if pl[1]:
                    x.add(pl[0])
                    for e in pl[1]:
                        if e[0] == "i":
                            x.add(e[1])
                u |= x - d
                if not pl[1]:
                    d.add(pl[0])
            elif s[0] in ("setd", "assume"):
                x = set()
                _places(s[1], x)
                u |= x - d
            elif s[0] == "dead":
                d.add(s[1])
        x = set()
        if term[0] == "switch":
            _places(term[1], x)
        elif term[0] == "assert":
            _places(term[1], x)
        elif term[0] == "drop":
            pass
        elif term[0] == "call":
            if term[1].get("kind") == "indirect":
                _places(term[1]["op"], x)
            _places(term[2], x)
            if term[3][1]:
                x.add(term[3][0])
                _places([term[3]], x)
        elif term[0] == "ret":
            x.add(0)
        u |= x - d
        if term[0] == "call" and not term[3][1]:
            d.add(term[3][0])
        use[b], dfn[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for x in succ[b]:
                o |= live.get(x, set())
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return taken, live


# ---------------------------------------------------------------- entry points
def run(ip, fn, fr, st, header):
    body = fn.loops[header]

    def step(s):
        return ip.run_blocks(fn, fr, s, header, (header, body))

    def prune(s):
        lv = fn.live.get(header, set()) | fn.taken
        dead = [c for c in s.cells if c[0] == fr and c[1] not in lv and not (c[1] <= fn.argc)]
        s = s.copy()
        for c in dead:
            del s.cells[c]
        gc(s)
        return s
    return generic(ip, st, step, (fn.path, header), prune)


def gc(s):
    """drop heap cells nothing refers to"""
    heap = [c for c in s.cells if c[0] == "n"]
    if not heap:
        return
    seen = set()
    work = []

    def scan(v):
        if isinstance(v, Ptr):
            if v.cell not in seen:
                seen.add(v.cell)
                work.append(v.cell)
        elif isinstance(v, (Struct, Enum)):
            for f in v.fields:
                scan(f)
        elif isinstance(v, Seq):
            for x in v.segs:
                scan(x)
        elif isinstance(v, MapV):
            for x in v.ins:
                scan(x)
        elif isinstance(v, tuple):
            for x in v:
                scan(x)
    for c, v in s.cells.items():
        if c[0] != "n":
            scan(v)
            scan(c)
    while work:
        c = work.pop()
        if c in s.cells and c[0] == "n":
            scan(s.cells[c])
    for c in heap:
        if c not in seen:
            del s.cells[c]


def generic(ip, st, step, key, prune=None):
    ip.stats["loops"] += 1
    if prune is None:
        def prune(s):
            s = s.copy()
            gc(s)
            return s
    if ip.refute:
        return bounded(ip, st, step, prune)
    res = []
    work = [(prune(st), 0, 0)]
    nosum = False
    while work:
        s, u, n = work.pop()
        r = step(s)
        backs = [x for x in r if x[0] == "back"]
        others = [x for x in r if x[0] != "back"]
        if not backs:
            res += others
            continue
        decided = not any(x[0] == "exit" for x in others)
        if decided and n < MAXC and len(backs) == 1:
            if n == MANY:
                try:
                    sm, exact = summarise(ip, s, step, key, prune)
                    if exact:
                        res += sm
                        continue
                except GiveUp:
                    pass
            res += others
            work.append((prune(backs[0][1]), u, n + 1))
            continue
        if not nosum and u == 0 and len(backs) <= 2:
            # loops that run at most once or twice need no summary
            un = unroll2(ip, backs, step, prune)
            if un is not None:
                res += others + un
                continue
        if not nosum:
            try:
                sm, exact = summarise(ip, s, step, key, prune)
            except GiveUp as e:
                nosum = True
                why = str(e)
                if ip.debug:
                    import traceback
                    print("NOSUM", key, why, traceback.format_exc()[-1500:])
                sm, exact = None, False
            if exact:
                res += sm
                continue
            if sm is not None and exact is None:
                res += sm
                continue
            if sm is not None:
                # not exact: prefer a full unrolling when it terminates quickly
                un = unroll(ip, s, step, prune, MAXU)
                res += sm if un is None else un
                continue
        if u >= MAXU or len(work) > 400:
            raise GiveUp("loop %s: no summary (%s)" % (key, why))
        res += others
        for b in backs:
            work.append((prune(b[1]), u + 1, n + 1))
    return res


def bounded(ip, st, step, prune):
    """the runs with few iterations only: used to look for violations, never to prove"""
    res = []
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        try:
            r = step(prune(s))
        except GiveUp:
            continue
        for x in r:
            if x[0] != "back":
                res.append(x)
            elif n < ip.refute:
                work.append((x[1], n + 1))
        if len(res) > 60:
            break
    return res


def unroll2(ip, backs, step, prune):
    res = []
    for lim in (1, 2):
        nxt = []
        for b in backs:
            try:
                r = step(prune(b[1]))
            except GiveUp:
                return None
            for x in r:
                (nxt if x[0] == "back" else res).append(x)
        if not nxt:
            return res
        if len(nxt) > 2 or lim == 1 and len(nxt) >= len(backs):
            return None
        backs = nxt
    return None


def unroll(ip, st, step, prune, limit):
    res = []
    work = [(st, 0)]
    budget = 200
    # quick refusal: does the loop still go on after a few guards?
    while work:
        s, u = work.pop()
        budget -= 1
        if u > limit or budget < 0:
            return None
        try:
            r = step(s)
        except GiveUp:
            return None
        for x in r:
            if x[0] == "back":
                work.append((prune(x[1]), u + 1))
            else:
                res.append(x)
    return res


# ---------------------------------------------------------------- templates
class Slot(V):
    """a loop-variant leaf of the state"""
    __slots__ = ("skey", "kind", "v0", "ety")
    _f = ("skey",)

    def __init__(self, key, kind, v0, ety=None):
        self.skey = key
        self.kind = kind
        self.v0 = v0
        self.ety = ety


class Need(Exception):
    pass


class Sum:
    """state of one summarisation attempt"""

    def __init__(self, ip, key):
        self.ip = ip
        self.id = uid()
        self.key = key
        self.it = atom("it", (self.id,), 0, 1 << 63)
        self.slots = {}
        self.sol = {}
        self.tmpl = {}
        self.banned = {}
        self.wide = {}
        self.invs = []
        self.exact = True

    # -- build templates
    def merge(self, t, v, key):
        """template covering both t (a template or value) and the value v"""
        if isinstance(t, Slot):
            return t
        if t is v or t == v:
            return t
        if isinstance(t, L) and isinstance(v, L):
            return self.slot(key, "int", t)
        if isinstance(t, (bool, Cond)) and isinstance(v, (bool, Cond)):
            return self.slot(key, "bool", t)
        if isinstance(t, Struct) and isinstance(v, Struct) and len(t.fields) == len(v.fields) and t.ty == v.ty:
            return Struct(t.ty, [self.merge(a, b, key + (i,)) for i, (a, b) in enumerate(zip(t.fields, v.fields))], t.fn)
        if isinstance(t, Enum) and isinstance(v, Enum) and t.ty == v.ty:
            if t.var == v.var:
                return Enum(t.ty, t.var, [self.merge(a, b, key + (i,)) for i, (a, b) in enumerate(zip(t.fields, v.fields))])
            return self.slot(key, "opq", t)
        if isinstance(t, Opq) and isinstance(v, (Opq, Enum)) and t.ty == v.ty or \
                isinstance(v, Opq) and isinstance(t, Enum) and t.ty == v.ty:
            return self.slot(key, "opq", t)
        if isinstance(t, Ptr) and isinstance(v, Ptr) and t.cell == v.cell and t.vt == v.vt and len(t.path) == len(v.path):
            path = self.mtuple(t.path, v.path, key + ("p",))
            rng = t.rng
            if t.rng is not None and v.rng is not None:
                rng = self.mtuple(t.rng, v.rng, key + ("r",))
            elif t.rng is not v.rng:
                raise GiveUp("pointer shape changes in loop")
            return Ptr(t.cell, path, rng, t.vt)
        if isinstance(t, Seq) and isinstance(v, Seq):
            return self.mseq(t, v, key)
        if isinstance(t, MapV) and isinstance(v, MapV) and t.base == v.base and len(v.ins) >= len(t.ins) and \
                v.ins[:len(t.ins)] == t.ins:
            return self.slot(key, "map", t)
        if t is None or v is None:
            return None
        raise GiveUp("loop-variant value at %s: %r / %r" % (key, t, v))

    def mtuple(self, a, b, key):
        if len(a) != len(b):
            raise GiveUp("shape changes in loop")
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if x == y:
                out.append(x)
            elif isinstance(x, Slot):
                out.append(x)
            elif isinstance(x, L) and isinstance(y, L):
                out.append(self.slot(key + (i,), "int", x))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                out.append(self.mtuple(x, y, key + (i,)))
            else:
                raise GiveUp("shape changes in loop")
        return tuple(out)

    def mseq(self, t, v, key):
        ts, vs = t.segs, v.segs
        if len(ts) == len(vs) and all(a[1] == b[1] for a, b in zip(ts, vs)) and not any(a[1] == "star" for a in ts):
            try:
                # only L positions may differ
                return SeqT(t.ety, tuple((self.mtuple((a[0],) + a[2:], (b[0],) + b[2:], key + (i,)), a[1])
                                         for i, (a, b) in enumerate(zip(ts, vs))))
            except GiveUp:
                pass
        if len(vs) >= len(ts) and vs[:len(ts)] == ts:
            return self.slot(key, "app", t, t.ety)
        return self.slot(key, "seq", t, t.ety)

    def slot(self, key, kind, v0, ety=None):
        s = self.slots.get(key)
        if s is None:
            s = Slot(key, kind, v0, ety)
            self.slots[key] = s
        return s

    # -- materialise
    def mat(self, t):
        if isinstance(t, Slot):
            return self.val(t)
        if isinstance(t, Struct):
            return Struct(t.ty, [self.mat(f) for f in t.fields], t.fn)
        if isinstance(t, Enum):
            return Enum(t.ty, t.var, [self.mat(f) for f in t.fields])
        if isinstance(t, Ptr):
            return Ptr(t.cell, self.mt(t.path), None if t.rng is None else self.mt(t.rng), t.vt)
        if isinstance(t, SeqT):
            return Seq(t.ety, [(self.mt(x)[0], k) + self.mt(x)[1:] for x, k in t.segs])
        return t

    def mt(self, x):
        return tuple(self.mat(y) if isinstance(y, V) else self.mt(y) if isinstance(y, tuple) else y for y in x)

    def lv(self, s):
        lo, hi = self.wide.get(s.skey, (0, U64))
        tag = "opq" if (s.skey, "multi") in self.banned else "lv"
        return A(atom("lv", (tag, self.id, s.skey, A(self.it)), lo, hi))

    def val(self, s):
        so = self.sol.get(s.skey)
        it = A(self.it)
        if s.kind == "int":
            if so is None or so[0] == "lv":
                return self.lv(s)
            if so[0] == "lin":
                return s.v0 + mkprod(it, so[1])
            if so[0] == "sum":
                return s.v0 + mksum(it, so[1], so[2])
            if so[0] == "rel":
                o = self.slots[so[1]]
                return s.v0 + (self.val(o) - o.v0) * so[2]
        if s.kind == "bool":
            return mkc("ne", A(atom("lv", ("opq", self.id, s.skey, it), 0, 1)))
        if s.kind == "app":
            if so is None:
                n = A(atom("lv", ("lv", self.id, s.skey + ("len",), it), 0, LENMAX))
                return Seq(s.ety, s.v0.segs + ((n, "o", ("opq", "acc", self.id, s.skey, it), ZERO),))
            bv, body, n = so[1], so[2], so[3]
            return Seq(s.ety, s.v0.segs + ((mksum(it, bv, n), "star", it, bv, body),))
        if s.kind == "seq" and so is not None and so[0] == "fill":
            p0, bv, x = so[1], so[2], so[3]
            return Seq(s.ety, subseg(s.v0.segs[0], ZERO, p0) + ((it, "star", it, bv, ((ONE, "e", x),)),) +
                       subseg(s.v0.segs[0], p0 + it, s.v0.len - p0 - it))
        if s.kind == "seq":
            fixed = so is None or so[0] == "fixed"
            n = s.v0.len if fixed else A(atom("lv", ("lv", self.id, s.skey + ("len",), it), 0, LENMAX))
            return Seq(s.ety, [(n, "o", ("opq", "acc", self.id, s.skey, it), ZERO)])
        if s.kind == "map":
            if so is None:
                return MapV(s.v0.ty, s.v0.base, s.v0.ins + (("acc", self.id, s.skey, it),))
            return MapV(s.v0.ty, s.v0.base, s.v0.ins + (("star", it, so[1], so[2]),))
        if s.kind == "opq":
            return Opq(s.v0.ty, ("opq", "lv", self.id, s.skey, it))
        raise GiveUp("slot %s" % s.kind)

    def state(self, s0, marker=None):
        s = s0.copy()
        for c, t in self.tmpl.items():
            s.cells[c] = self.mat(t)
        s.log = s0.log + ((marker,) if marker is not None else ())
        for k in self.verkeys:
            s.ver = dict(s.ver)
            s.ver[k] = ("it", self.id, A(self.it))
        for f in self.invs:
            if not s.assume(f):
                return None
        return s


def subseg(g, off, n):
    """n elements of an 'o' or 'r' segment from off"""
    if n == ZERO:
        return ()
    return ((n, "o", g[2], g[3] + off) if g[1] == "o" else (n, "r", g[2]),)


def fillstep(S, s, b, v):
    """(p0, x) if v is the loop's sequence with element p0 + it set to x"""
    it = A(S.it)
    acc = ("opq", "acc", S.id, s.skey, it)
    segs = [g for g in v.segs if not b.same(g[0], ZERO)]
    es = [i for i, g in enumerate(segs) if g[1] == "e"]
    if len(es) != 1 or not b.same(v.len, s.v0.len):
        return None
    i = es[0]
    at, pre, post = ZERO, segs[:i], segs[i + 1:]
    if len(pre) > 1 or len(post) > 1:
        return None
    if pre:
        if pre[0][1] != "o" or pre[0][2] != acc or not b.same(pre[0][3], ZERO):
            return None
        at = b.norm(pre[0][0])
    if post and (post[0][1] != "o" or post[0][2] != acc or not b.same(post[0][3], at + 1)):
        return None
    p0 = at - it
    if depends(p0, S.it) or any(a.kind == "el" and a.args[0][:2] == ("opq", "acc") for a in deep(segs[i][2])):
        return None
    return p0, segs[i][2]


class SeqT(V):
    """sequence template whose segments contain slots"""
    __slots__ = ("ety", "segs")
    _f = ("ety", "segs")

    def __init__(self, ety, segs):
        self.ety = ety
        self.segs = segs


def bvfor(*xs):
    """bound variable of a level above every bound variable in xs"""
    lev = 0
    d = set()
    for x in xs:
        _deepall(x, d)
    for a in d:
        if a.kind == "bv" and isinstance(a.args[0], int):
            lev = max(lev, a.args[0] + 1)
    return atom("bv", (lev,), 0, 1 << 62)


def _deepall(x, d):
    if isinstance(x, L):
        d |= x.deep_atoms()
    elif isinstance(x, Atom):
        d |= x.deep
    elif isinstance(x, tuple):
        for y in x:
            _deepall(y, d)
    elif hasattr(x, "deep_atoms"):
        d |= x.deep_atoms()


def deep(x):
    d = set()
    _deepall(x, d)
    return d


def normv(st, v):
    return st.norm(v) if not isinstance(v, bool) and v is not None else v


def ev_rewrite(e, m):
    if e.kind == "star":
        return Ev(e.kind, rewrite(e.obj, m), e.ok, e.site, count=rewrite(e.count, m), bv=e.bv,
                  bodies=tuple(tuple(ev_rewrite(x, m) for x in b) for b in e.bodies))
    d = {}
    for k, v in e.d.items():
        d[k] = v if isinstance(v, (str, int, bool)) or v is None else rewrite(v, m)
    return Ev(e.kind, rewrite(e.obj, m) if e.obj is not None else None, e.ok, e.site, **d)


def samev(st, a, b):
    """are two values provably equal in st?"""
    if a is b or a == b:
        return True
    if isinstance(a, L) and isinstance(b, L):
        return st.same(a, b)
    if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        d = st.decide(a)
        if isinstance(b, bool):
            return d is b
        e = st.decide(b)
        return d is not None and d == e or normv(st, a) == normv(st, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Struct):
        return a.ty == b.ty and len(a.fields) == len(b.fields) and all(samev(st, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Enum):
        return a.ty == b.ty and a.var == b.var and all(samev(st, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Ptr):
        return a.vt == b.vt and samet(st, (a.cell, a.path, a.rng), (b.cell, b.path, b.rng))
    if isinstance(a, Seq):
        return sameseq(st, a, b)
    return normv(st, a) == normv(st, b)


def samet(st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(samet(st, x, y) for x, y in zip(a, b))
    if isinstance(a, V) or isinstance(b, V) or isinstance(a, L) or isinstance(b, L):
        return samev(st, a, b)
    return False


def short(st, g):
    """the ILInt form of a value below 0xF8 is that value"""
    if g[1] == "ilint" and st.prove(C(0xF7) - g[2]):
        return (ONE, "e", g[2])
    return g


def sameseq(st, a, b):
    x, y = [short(st, g) for g in a.segs], [short(st, g) for g in b.segs]
    while x and y:
        s, t = x[0], y[0]
        if s[1] == t[1] and samet(st, s, t):
            x.pop(0)
            y.pop(0)
            continue
        if s[1] == t[1] == "star" and samet(st, s[4], t[4]) and s[3] is t[3] or \
                s[1] == t[1] == "star" and samet(st, rewrite(s[4], {s[3]: A(t[3])}), t[4]):
            # longer repetition: peel one body off the end of the longer one
            d = st.norm(t[2] - s[2])
            if d == ZERO:
                x.pop(0)
                y.pop(0)
                continue
            if d.const is not None and 0 < d.const <= 8:
                x, y, s, t, d = y, x, t, s, -d
            if d.const is None or not (-8 <= d.const < 0):
                return False
            x.pop(0)
            y.pop(0)
            tail = []
            for i in range(-d.const):
                tail += list(rewrite(s[4], {s[3]: t[2] + i}))
            x = tail + x
            continue
        # repetition starting at a known-positive count against its first body
        if s[1] == "star" and s[2].const is not None and s[2].const <= 8:
            x.pop(0)
            x = [q for i in range(s[2].const) for q in rewrite(s[4], {s[3]: C(i)})] + x
            continue
        if t[1] == "star" and t[2].const is not None and t[2].const <= 8:
            y.pop(0)
            y = [q for i in range(t[2].const) for q in rewrite(t[4], {t[3]: C(i)})] + y
            continue
        # cut the longer of two divisible segments
        if s[1] == t[1] and s[1] in ("o", "r", "?"):
            if s[1] == "r" and samev(st, s[2], t[2]) or s[1] == "o" and samet(st, s[2:], t[2:]):
                d = st.norm(s[0] - t[0])
                if st.prove(d):
                    x[0] = (s[0] - t[0],) + ((s[1], s[2]) if s[1] == "r" else (s[1], s[2], s[3] + t[0]))
                    y.pop(0)
                    if st.same(x[0][0], ZERO):
                        x.pop(0)
                    continue
                if st.prove(-d):
                    y[0] = (t[0] - s[0],) + ((t[1], t[2]) if t[1] == "r" else (t[1], t[2], t[3] + s[0]))
                    x.pop(0)
                    if st.same(y[0][0], ZERO):
                        y.pop(0)
                    continue
            return False
        return False
    rest = x or y
    return all(st.same(s[0], ZERO) for s in rest)


# ---------------------------------------------------------------- summarisation
def summarise(ip, s0, step, key, prune):
    S = Sum(ip, key)
    it = S.it
    shift = {it: A(it) + 1}
    s0 = normcells(ip, s0)
    r = step(s0)
    b1 = [prune(x[1]) for x in r if x[0] == "back"]
    if not b1:
        raise GiveUp("no back edge")
    S.verkeys = set()
    for b in b1:
        S.verkeys |= {k for k in b.ver if b.ver[k] != s0.ver.get(k, 0)}
    cells = set(s0.cells)
    for b in b1:
        cells &= set(b.cells) | {c for c in cells if c[0] in ("x", "k", "pos", "spos", "tape", "nofail")}
        # lazily created symbolic cells and ghost cells exist from the start
        for c in b.cells:
            if c not in s0.cells and c[0] in ("x", "k"):
                pass
    # ghost cells that appear during the first iteration start from their default
    s0 = s0.copy()
    for b in b1:
        for c in b.cells:
            if c not in s0.cells:
                if c[0] == "pos":
                    s0.cells[c] = ZERO
                    cells.add(c)
                elif c[0] == "spos":
                    s0.cells[c] = A(atom("fn", ("spos0",) + c[1:], 0, U64))
                    cells.add(c)
                elif c[0] in ("x",):
                    try:
                        s0.cells[c] = ip.getcell(s0, c)
                        cells.add(c)
                    except (GiveUp, Infeasible):
                        pass
                elif c[0] == "k":
                    s0.cells[c] = b.cells[c]
    base = s0.copy()
    for c in list(base.cells):
        if c not in cells and c[0] not in ("x", "k", "pos", "spos", "tape", "nofail"):
            del base.cells[c]
    # initial templates from the first iteration
    for c in cells:
        t = s0.cells[c]
        for b in b1:
            if c in b.cells:
                t = S.merge(t, normv(b, b.cells[c]), (c,))
        if t is not s0.cells[c]:
            S.tmpl[c] = t
    # hypotheses: constant steps seen in the first iteration
    for k, s in S.slots.items():
        if s.kind == "int":
            ds = set()
            for b in b1:
                v = find(S, b, k)
                ds.add(b.norm(v - s.v0) if isinstance(v, L) else None)
            if len(ds) == 1:
                d = ds.pop()
                if d is not None and (d.const is not None):
                    S.sol[k] = ("lin", d)
                    f = s.v0 + A(it) * d.c
                    if d.c < 0:
                        # hypotheses: counting down stops at zero, or before
                        S.invs += [g for c in (0, 1) for g in [ge(f, C(c))] if base.prove(s.v0 - c) and isinstance(g, Cond)]
            if k not in S.sol:
                S.sol[k] = ("lv",)
                rng = [s.v0.range()] + [find(S, b, k).range() for b in b1 if isinstance(find(S, b, k), L)]
                lo = min(x[0] for x in rng)
                S.wide[k] = (0, U64) if lo >= 0 else (-(1 << 70), 1 << 70)
    guess_sums(ip, S, s0, b1, step, prune)
    outs = None
    for rnd in range(14):
        st = S.state(base)
        if st is None:
            raise GiveUp("inconsistent loop invariant")
        ip.quiet += 1
        try:
            outs = step(st)
        finally:
            ip.quiet -= 1
        backs = [prune(x[1]) for x in outs if x[0] == "back"]
        changed = update(S, base, st, backs, shift)
        if not changed:
            changed = invariants(S, base, st, backs, shift, rnd)
        if not changed:
            break
    else:
        raise GiveUp("no stable loop summary for %s" % (key,))
    # final pass with the event of the iterations already done
    mark = Ev("star", None, True, ip.where(None), count=A(it), bv=None, bodies=())
    st = S.state(base, mark)
    for cur, tot in totals(S, backs):
        st.assume(ge(cur, tot))
        st.assume(ge(tot, cur))
    outs = step(st)
    ebv = atom("bv", (("e", uid()),), 0, 1 << 62)
    bodies = []
    for x in outs:
        if x[0] == "back":
            b = x[1]
            if len(b.log) > len(st.log):
                bodies.append(tuple(ev_rewrite(norm_ev(e, b), {it: A(ebv)}) for e in b.log[len(st.log):]))
            else:
                bodies.append(())
    mark.d["bv"] = ebv
    mark.d["bodies"] = tuple(bodies)
    ip.stars[ebv] = [x[1] for x in outs if x[0] == "back"]
    ip.starcount[ebv] = it
    backs = [prune(x[1]) for x in outs if x[0] == "back"]
    rank = ranking(S, st, backs, shift)
    ip.stats.setdefault("looplist", []).append(
        {"key": key, "where": ip.where(None), "slots": {str(k): show_sol(S, s) for k, s in S.slots.items()},
         "invs": [str(f) for f in S.invs], "rank": rank, "backs": len(backs),
         "stuck": rank is None and stuck(S, st, backs, outs)})
    exact = not any((s.kind == "int" and S.sol.get(k, ("lv",))[0] == "lv")
                    or s.kind in ("bool", "opq") or (s.kind == "seq" and S.sol.get(k, ("",))[0] != "fill") or (s.kind in ("app", "map") and S.sol.get(k) is None)
                    for k, s in S.slots.items())
    if exact and (len(backs) > 2 or any(len(g.t) == 1 and g.t[0][0] is it and g.t[0][1] < 0 and g.c <= MAXU for f in S.invs
                     for g in [f.a if isinstance(f, Cond) and f.op == "ge" else f] if isinstance(g, L))):
        exact = False           # a known number of iterations
    if not exact and not all(b.prove(C(MAXU - 1) - A(it)) for b in backs):
        exact = None            # not known to be short: keep the summary
    outs = [x for x in outs if x[0] != "back"]
    notes = tuple(dict.fromkeys(n for b in backs for n in b.notes))
    for x in outs:
        if hasattr(x[1], "notes"):
            x[1].notes = x[1].notes + tuple(n for n in notes if n not in x[1].notes)
        for cur, tot in totals(S, backs):
            x[1].assume(eq(cur, tot))
    return outs, exact


def stuck(S, st, backs, outs):
    """some way around the loop changes nothing the loop depends on, so it can be taken for ever"""
    for x in outs:
        if x[0] != "back" and hasattr(x[1], "facts"):
            for f in x[1].facts:
                if f not in st.facts and any(a is S.it for a, _ in f.t):
                    return False
    for b in backs:
        if b.notes or consumes(st, b):
            continue
        if again(S, st, b):
            return True
        if all(s.kind in ("app", "seq", "map") or k[0][0] in ("pos", "spos") or samev(b, S.val(s), find(S, b, k)) for k, s in S.slots.items()):
            return True
    return False


def consumes(st, b):
    """the iteration takes at least one byte from some reader, of which there are finitely many"""
    return any(e.kind == "rd" and e.ok and b.prove(e.n - 1) or e.kind == "subtag" and e.ok for e in b.log[len(st.log):])


def again(S, st, b):
    """there are values for which the first iteration takes nothing and leaves every variable as it was"""
    b = b.copy()
    for e in b.log[len(st.log):]:
        if e.kind != "rd" or not e.ok or not b.assume(eq(e.n, ZERO)):
            return False
    if not b.assume(eq(A(S.it), ZERO)):
        return False
    try:
        for k, s in S.slots.items():
            v = find(S, b, k)
            if s.kind == "int" and isinstance(v, L):
                if not b.assume(eq(S.val(s), s.v0)) or not b.assume(eq(v, s.v0)):
                    return False
            elif s.kind == "int" or not (s.kind in ("app", "seq", "map") or samev(b, S.val(s), v)):
                return False
    except Split:
        return False
    import witness
    return witness.search(b, True) is not None


def totals(S, backs):
    """a variable whose step depends on itself is its start plus the sum of its steps: [(variable, that sum)]"""
    it = S.it
    res = []
    for k, s in S.slots.items():
        if s.kind != "int" or S.sol.get(k, ("",))[0] != "lv" or (k, "multi") in S.banned:
            continue
        cur = S.val(s)
        ds = set()
        for b in backs:
            v = find(S, b, k)
            ds.add(b.norm(v - b.norm(cur)) if isinstance(v, L) else None)
        if len(ds) != 1 or None in ds:
            continue
        d = ds.pop()
        bv = bvfor(d)
        res.append((cur, s.v0 + mksum(A(it), bv, rewrite(d, {it: A(bv)}))))
    return res


class NoFit(Exception):
    pass


def antiunify(x, y, bv):
    """a term g(bv) with g(0) = x and g(1) = y"""
    if x is y or x == y:
        return x
    if isinstance(x, L) and isinstance(y, L):
        if x.const is not None and y.const is not None:
            if y.c - x.c == 1:
                return A(bv) + x.c
            raise NoFit()
        if len(x.t) != len(y.t):
            raise NoFit()
        acc = C(x.c) if x.c == y.c else A(bv) * (y.c - x.c) + x.c
        left = list(y.t)
        for a, k in x.t:
            for i, (b, j) in enumerate(left):
                if j != k or a.kind != b.kind:
                    continue
                try:
                    z = antiunify(a, b, bv)
                except NoFit:
                    continue
                acc = acc + A(z) * k
                left.pop(i)
                break
            else:
                raise NoFit()
        return acc
    if isinstance(x, Atom) and isinstance(y, Atom):
        if x.kind != y.kind or len(x.args) != len(y.args):
            raise NoFit()
        return atom(x.kind, tuple(antiunify(a, b, bv) for a, b in zip(x.args, y.args)), min(x.lo, y.lo), max(x.hi, y.hi))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(antiunify(a, b, bv) for a, b in zip(x, y))
    raise NoFit()


def guess_sums(ip, S, s0, b1, step, prune):
    """hypotheses for values whose first steps differ: the sum of a term over the iteration number"""
    todo = {k: s for k, s in S.slots.items() if s.kind == "int" and S.sol.get(k) == ("lv",)}
    if not todo or len(b1) > 2:
        return
    d0 = {}
    for k, s in todo.items():
        vs = {b.norm(v - s.v0) for b in b1 for v in [find(S, b, k)] if isinstance(v, L)}
        if len(vs) == 1:
            d0[k] = vs.pop()
    d1 = {}
    for b in b1:
        old = {k: find(S, b, k) for k in d0}
        try:
            r = step(b)
        except (GiveUp, Split, Infeasible):
            return
        for x in r:
            if x[0] == "back":
                z = prune(x[1])
                for k in d0:
                    v = find(S, z, k)
                    d1.setdefault(k, set()).add(z.norm(v - old[k]) if isinstance(v, L) else None)
    bv = atom("bv", (("g", uid()),), 0, 1 << 62)
    for k, ds in d1.items():
        if len(ds) != 1 or None in ds:
            continue
        try:
            g = antiunify(d0[k], ds.pop(), bv)
        except NoFit:
            continue
        if bv in g.deep_atoms() and g.const is None:
            c = bvfor(g)
            S.sol[k] = ("sum", c, rewrite(g, {bv: A(c)}))


def normcells(ip, s0):
    """the state with its contents rewritten by the equalities it knows"""
    if not s0.sub:
        return s0
    s = s0.copy()
    out = {}
    for c, v in s.cells.items():
        n = c
        if c[0] == "x":
            n = s.norm(c)
            if n != c and c in ip.ctype:
                ip.ctype.setdefault(n, ip.ctype[c])
        out[n] = normv(s, v)
    s.cells = out
    return s


def norm_ev(e, st):
    if not st.sub or e.kind == "star":
        if e.kind == "star":
            e.d["count"] = st.norm(e.d["count"])
        return e
    d = {}
    for k, v in e.d.items():
        d[k] = v if isinstance(v, (str, int, bool)) or v is None else st.norm(v)
    return Ev(e.kind, st.norm(e.obj) if e.obj is not None else None, e.ok, e.site, **d)


def show_sol(S, s):
    so = S.sol.get(s.skey)
    return "%s %s" % (s.kind, "?" if so is None else so[0])


def find(S, b, key):
    """value in state b at a slot key"""
    v = b.cells.get(key[0])
    return _find(v, key[1:])


def _find(v, path):
    i = 0
    while i < len(path):
        k = path[i]
        if isinstance(v, (Struct, Enum)) and isinstance(k, int):
            if k >= len(v.fields):
                return None
            v = v.fields[k]
        elif isinstance(v, Ptr) and k == "p":
            return _ft(v.path, path[i + 1:])
        elif isinstance(v, Ptr) and k == "r":
            return _ft(v.rng, path[i + 1:])
        elif isinstance(v, Seq) and isinstance(k, int):
            if k >= len(v.segs):
                return None
            sg = v.segs[k]
            return _ft((sg[0],) + sg[2:], path[i + 1:])
        else:
            return None
        i += 1
    return v


def _ft(x, path):
    for k in path:
        if not isinstance(x, tuple) or k >= len(x):
            return None
        x = x[k]
    return x


def depends(x, it):
    """does x vary with the iteration (through it or loop values)?"""
    return it in deep(x)


def update(S, base, st, backs, shift):
    """check the hypotheses against the back states; True if something changed"""
    it = S.it
    changed = False
    # new variant leaves
    for b in backs:
        for k in b.ver:
            if b.ver[k] != st.ver.get(k, 0) and k not in S.verkeys:
                S.verkeys.add(k)
                changed = True
        for c in list(st.cells):
            if c not in b.cells:
                if c in S.tmpl or c in base.cells:
                    if c[0] not in ("x", "k", "pos", "spos", "tape", "nofail"):
                        base.cells.pop(c, None)
                        S.tmpl.pop(c, None)
                        changed = True
                continue
            if c in S.tmpl:
                n = len(S.slots)
                want = rewrite(st.cells[c], shift)
                t = cover(S, S.tmpl[c], st.cells[c], normv(b, b.cells[c]), (c,), b)
                if t is not None:
                    S.tmpl[c] = t
                    changed = True
            elif c in base.cells and not (b.cells[c] is st.cells[c] or b.cells[c] == st.cells[c]):
                if samev(b, b.cells[c], st.cells[c]):
                    continue
                S.tmpl[c] = S.merge(base.cells[c], normv(b, b.cells[c]), (c,))
                changed = True
        for c in b.cells:
            if c not in st.cells and c[0] in ("pos", "spos") and c not in base.cells:
                base.cells[c] = ZERO if c[0] == "pos" else A(atom("fn", ("spos0",) + c[1:], 0, U64))
                changed = True
    if changed:
        for k, s in S.slots.items():
            if s.kind == "int" and k not in S.sol:
                S.sol[k] = ("lv",)
                S.wide[k] = (0, U64) if s.v0.range()[0] >= 0 else (-(1 << 70), 1 << 70)
        return True
    # steps of every slot
    deltas = {}
    for k, s in S.slots.items():
        so = S.sol.get(k)
        if s.kind == "int":
            cur = S.val(s)
            nxt = rewrite(cur, shift)
            vals = [find(S, b, k) for b in backs]
            if any(not isinstance(v, L) for v in vals):
                raise GiveUp("lost loop value %s" % (k,))
            if so[0] != "lv":
                if so[0] == "rel":
                    o = S.slots[so[1]]
                    nx = [s.v0 + (find(S, b, so[1]) - o.v0) * so[2] for b in backs]
                else:
                    nx = [nxt] * len(backs)
                if not all(b.same(v, x) for b, v, x in zip(backs, vals, nx)):
                    S.banned[(k, so[0])] = True
                    S.sol[k] = ("lv",)
                    rl = s.v0.range()[0]
                    S.wide[k] = (0, U64) if rl >= 0 else (-(1 << 70), 1 << 70)
                    changed = True
                continue
            lo, hi = S.wide.get(k, (0, U64))
            if (lo, hi) == (0, U64):
                if not all(b.prove(v) and b.prove(C(U64) - v) for b, v in zip(backs, vals)) or \
                        not base.prove(s.v0) or not base.prove(C(U64) - s.v0):
                    S.wide[k] = (-(1 << 70), 1 << 70)
                    changed = True
                    continue
            deltas[k] = tuple(b.norm(v - b.norm(cur)) for b, v in zip(backs, vals))
        elif s.kind == "app":
            vals = [normv(b, find(S, b, k)) for b in backs]
            cur = S.val(s)
            if so is None:
                if (k, "app") in S.banned:
                    continue
                news = set()
                for b, v in zip(backs, vals):
                    c = normv(b, cur)
                    if not isinstance(v, Seq) or v.segs[:len(c.segs)] != c.segs:
                        news.add(None)
                    else:
                        news.add(v.segs[len(c.segs):])
                if len(news) == 1 and None not in news:
                    body = news.pop()
                    if not any(a.kind == "lv" and a.args[2] == k + ("len",) for a in deep(body)):
                        bv = bvfor(body)
                        bb = rewrite(body, {it: A(bv)})
                        n = ZERO
                        for g in bb:
                            n = n + g[0]
                        S.sol[k] = ("star", bv, bb, n)
                        changed = True
                        continue
                S.banned[(k, "app")] = True
                s.kind = "seq"
                S.sol[k] = ("var",)
                changed = True
            else:
                nxt = rewrite(cur, shift)
                if not all(isinstance(v, Seq) and sameseq(b, normv(b, nxt), v) for b, v in zip(backs, vals)):
                    # the body may have become more precise
                    S.sol.pop(k)
                    n = S.banned.get((k, "tries"), 0)
                    S.banned[(k, "tries")] = n + 1
                    if n > 2:
                        S.banned[(k, "app")] = True
                        s.kind = "seq"
                        S.sol[k] = ("var",)
                    changed = True
        elif s.kind == "seq":
            vals = [find(S, b, k) for b in backs]
            if so is not None and so[0] == "fill":
                nxt = rewrite(S.val(s), shift)
                if not all(isinstance(v, Seq) and sameseq(b, normv(b, nxt), normv(b, v)) and
                           b.prove(s.v0.len - so[1] - A(it) - 1) for b, v in zip(backs, vals)):
                    n = S.banned.get((k, "tries"), 0)
                    S.banned[(k, "tries")] = n + 1
                    S.sol[k] = ("fixed",)
                    changed = True
                continue
            if so == ("fixed",) and S.banned.get((k, "tries"), 0) < 3 and len(s.v0.segs) == 1 and s.v0.segs[0][1] in "or":
                fs = [fillstep(S, s, b, v) if isinstance(v, Seq) else None for b, v in zip(backs, vals)]
                if fs and None not in fs and all(f == fs[0] for f in fs):
                    p0, x = fs[0]
                    bv = bvfor(x)
                    S.sol[k] = ("fill", p0, bv, rewrite(x, {it: A(bv)}))
                    changed = True
                    continue
                S.banned[(k, "tries")] = S.banned.get((k, "tries"), 0) + 1
                changed = True
            if so is None or so[0] == "fixed":
                if all(isinstance(v, Seq) and b.same(v.len, s.v0.len) for b, v in zip(backs, vals)):
                    S.sol[k] = ("fixed",)
                else:
                    S.sol[k] = ("var",)
                    changed = True
        elif s.kind == "map":
            vals = [find(S, b, k) for b in backs]
            cur = S.val(s)
            if so is None:
                news = set()
                for b, v in zip(backs, vals):
                    v = normv(b, v)
                    c = normv(b, cur)
                    if not isinstance(v, MapV) or v.ins[:len(c.ins)] != c.ins:
                        news.add(None)
                    else:
                        news.add(v.ins[len(c.ins):])
                if len(news) == 1 and None not in news:
                    body = news.pop()
                    bv = bvfor(body)
                    S.sol[k] = ("star", bv, rewrite(body, {it: A(bv)}))
                    changed = True
                else:
                    raise GiveUp("map updated irregularly in loop")
    if changed:
        return True
    # solve recurrences
    for k, ds in deltas.items():
        if not ds:
            continue
        uniq = set(ds)
        if len(uniq) == 1 and (k, "multi") in S.banned and False:
            pass
        if len(uniq) == 1:
            d = ds[0]
            dd = deep(d)
            if not depends(d, it) and (k, "lin") not in S.banned:
                S.sol[k] = ("lin", d)
                changed = True
            elif not any(a.kind == "lv" and a.args[2] == k for a in dd) and (k, "sum") not in S.banned and \
                    not any(a.kind == "lv" and a.args[0] == "opq" for a in dd):
                bv = bvfor(d)
                S.sol[k] = ("sum", bv, rewrite(d, {it: A(bv)}))
                changed = True
        if changed:
            return True
    # relations between slots that move together
    ks = [k for k in deltas]
    for i, k in enumerate(ks):
        for j in ks[:i]:
            for sg in (1, -1):
                if S.sol[j][0] == "lv" and S.sol[k][0] == "lv" and (k, "rel") not in S.banned and deltas[k] and \
                        all(b.same(x, y * sg) for b, x, y in zip(backs, deltas[k], deltas[j])):
                    S.sol[k] = ("rel", j, sg)
                    return True
    for k, ds in deltas.items():
        if len(set(ds)) > 1 and (k, "multi") not in S.banned:
            S.banned[(k, "multi")] = True
            changed = True
    return changed


def cover(S, t, cur, v, key, b):
    """extend template t so that it covers v; None when nothing new varies"""
    if isinstance(t, Slot):
        if t.kind == "int" and not isinstance(v, L) or t.kind in ("app", "seq") and not isinstance(v, Seq):
            raise GiveUp("loop value changes kind")
        return None
    if isinstance(t, (Struct, Enum)) and type(v) is type(t) and len(t.fields) == len(v.fields) and \
            getattr(t, "var", 0) == getattr(v, "var", 0):
        fs, ch = [], False
        for i, (x, y) in enumerate(zip(t.fields, v.fields)):
            r = cover(S, x, None, y, key + (i,), b)
            fs.append(x if r is None else r)
            ch = ch or r is not None
        if not ch:
            return None
        return Struct(t.ty, fs, t.fn) if isinstance(t, Struct) else Enum(t.ty, t.var, fs)
    if isinstance(t, SeqT):
        if not isinstance(v, Seq) or len(v.segs) != len(t.segs) or any(a[1] != k for a, (_, k) in zip(v.segs, t.segs)):
            raise GiveUp("sequence shape changes in loop")
        segs, ch = [], False
        for i, (sg, (x, k)) in enumerate(zip(v.segs, t.segs)):
            r = ctuple(S, x, (sg[0],) + sg[2:], key + (i,), b)
            segs.append((x if r is None else r, k))
            ch = ch or r is not None
        return SeqT(t.ety, tuple(segs)) if ch else None
    if isinstance(t, Ptr) and isinstance(v, Ptr):
        if t.cell != v.cell or len(t.path) != len(v.path) or (t.rng is None) != (v.rng is None):
            raise GiveUp("pointer changes in loop")
        p = ctuple(S, t.path, v.path, key + ("p",), b)
        r = ctuple(S, t.rng, v.rng, key + ("r",), b) if t.rng is not None else None
        if p is None and r is None:
            return None
        return Ptr(t.cell, p or t.path, r or t.rng, t.vt)
    if t == v or (t is not None and v is not None and samev(b, t, v)):
        return None
    r = S.merge(t, v, key)
    return None if r is t else r


def ctuple(S, x, y, key, b):
    out, ch = [], False
    for i, (p, q) in enumerate(zip(x, y)):
        if isinstance(p, Slot) or p == q:
            out.append(p)
        elif isinstance(p, L) and isinstance(q, L):
            if b.same(p, q):
                out.append(p)
            else:
                out.append(S.slot(key + (i,), "int", p))
                ch = True
        elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            r = ctuple(S, p, q, key + (i,), b)
            out.append(p if r is None else r)
            ch = ch or r is not None
        else:
            raise GiveUp("shape changes in loop")
    return tuple(out) if ch else None


# ---------------------------------------------------------------- invariants
def nextmap(S, b):
    """substitution taking a form over the head of `it` to the head of it+1"""
    it = S.it
    m = {it: A(it) + 1}
    return m


def at_next(S, f, b):
    """form f (over it and loop values at the head of it) at the next head, in back state b"""
    it = S.it
    sub = {}
    for a in deep(f):
        if a.kind == "lv" and a.args[1] == S.id and a.args[3] == A(it):
            s = S.slots.get(a.args[2])
            if s is None:
                return None
            v = find(S, b, a.args[2])
            if not isinstance(v, L):
                return None
            sub[a] = v
    t = {}
    for a, v in sub.items():
        t[a] = v
    # lv atoms first through placeholders so that `it` inside v is not shifted
    ph = {a: A(atom("ph", (a.id,), a.lo, a.hi)) for a in t}
    g = rewrite(f, ph)
    g = rewrite(g, {it: A(it) + 1})
    return rewrite(g, {p.single(): t[a] for a, p in ph.items()})


def invariants(S, base, st, backs, shift, rnd):
    """Houdini over candidate inequalities; True if the set changed"""
    it = S.it
    if not backs:
        return False
    if S.banned.get("invdone"):
        # verify
        good = []
        for f in S.invs:
            if all(holds_next(S, f, b) for b in backs):
                good.append(f)
        if len(good) != len(S.invs):
            S.invs = good
            return True
        return False
    cands = []

    def add(f):
        if f.range()[0] >= 0:
            return
        if f not in cands and len(cands) < 60:
            cands.append(f)
    assumed = list(S.invs)
    for f in assumed:
        add(f.a)
    for k, s in S.slots.items():
        if s.kind == "int" and S.sol.get(k, ("lv",))[0] == "lv":
            v = S.lv(s)
            add(v - s.v0)
            add(s.v0 - v)
    for b in backs:
        for f in b.facts:
            if f in st.facts:
                continue
            if not depends(f, it):
                continue
            for c in (0, 1):
                add(f + c)
            for c in (1, 511, 512):
                if c != 1 and f.c:
                    continue
                add(f + c)
            g = rewrite(f, {it: A(it) - 1}) if not any(a.kind == "lv" for a in deep(f)) else None
            if g is not None:
                add(g)
            # drop the per-iteration terms
            h = L(f.c, tuple((a, x) for a, x in f.t if not (it in a.deep and a.kind not in ("it", "lv", "sum", "prod"))))
            if h != f and h.t:
                add(h)
                add(L(0, h.t))
            h = L(f.c, tuple((a, x) for a, x in f.t if a.kind not in ("sl", "fr")))
            if h != f and h.t and depends(h, it):
                add(h)
    zero = {it: ZERO}
    good = []
    for f in cands:
        f0 = rewrite(rep0(S, f), zero)
        if base.prove(f0):
            good.append(f)
    S.banned["invdone"] = True
    if not good:
        S.invs = []
        return bool(assumed)
    # drop those not preserved, to a fixpoint, re-using the same back states with assumptions
    while True:
        keep = []
        for f in good:
            ok = True
            for b in backs:
                z = b.copy()
                feas = True
                for g in good:
                    try:
                        if not z.assume(ge(g, ZERO)):
                            feas = False
                            break
                    except Split:
                        pass
                if not feas:
                    continue
                n = at_next(S, f, z)
                if n is None or not z.prove(n):
                    ok = False
                    break
            if ok:
                keep.append(f)
        if len(keep) == len(good):
            break
        good = keep
        if not good:
            S.invs = []
            return bool(assumed)
    new = [ge(f, ZERO) for f in good]
    new = [f for f in new if isinstance(f, Cond)]
    S.invs = new
    # relations may be found again with fewer spurious paths
    return bool(new) or bool(assumed)


def rep0(S, f):
    """loop values at the first head"""
    m = {}
    for a in deep(f):
        if a.kind == "lv" and a.args[1] == S.id and a.args[3] == A(S.it) and a.args[2] in S.slots:
            m[a] = S.slots[a.args[2]].v0
    return rewrite(f, m) if m else f


def holds_next(S, f, b):
    n = at_next(S, f.a, b)
    return n is not None and b.prove(n)


def ranking(S, st, backs, shift):
    """a non-negative quantity that decreases on every path back to the head"""
    it = S.it
    if not backs:
        return "exits"
    takes = [b for b in backs if consumes(st, b)]
    if len(takes) == len(backs):
        return "takes input"
    backs = [b for b in backs if b not in takes]
    cands = []
    for b in backs:
        for f in b.facts:
            if f not in st.facts and depends(f, it) and f not in cands:
                cands.append(f)
    for f in st.facts:
        if depends(f, it) and f not in cands:
            cands.append(f)
    for k, s in S.slots.items():
        if s.kind == "int":
            v = S.val(s)
            if v.range()[0] >= 0:
                cands.append(v)
    for f in cands:
        ok = True
        for b in backs:
            n = at_next(S, f, b)
            if n is None or not b.prove(f) or not b.prove(f - n - 1):
                ok = False
                break
        if ok:
            return str(f)
    return None
