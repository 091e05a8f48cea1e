"""Transfer functions for functions without an analysed body: the parts of std
the crate uses, and calls on abstract Reader / Writer / ILTag / factory objects."""
import re
from terms import *
from values import *
from values import _deepv
import terms

ISIZE = (1 << 63) - 1


# ---------------------------------------------------------------- special terms
def es(v):
    """canonical ILInt length of v"""
    if v.const is not None:
        return C(es_const(v.const))
    lo, hi = v.range()
    a, b = es_const(max(lo, 0)), es_const(max(min(hi, U64), 0))
    if a == b:
        return C(a)
    return A(atom("fn", ("es", v), a, b))


def es_const(v):
    if v < 0xF8:
        return 1
    for n in range(1, 9):
        if v - 0xF8 < 1 << (8 * n):
            return n + 1
    return 9


def mksum(n, bv, g):
    """sum of g over bv in 0..n, distributed over the linear form"""
    if n.const is not None and n.const <= 0:
        return ZERO
    da = g.deep_atoms()
    if bv not in da:
        return mkprod(n, g)
    cb = canonbv(da, bv)
    if cb is not bv:
        g = rewrite(g, {bv: A(cb)}, {})
        bv = cb
    if n.const is None and 0 < n.c <= 4 and (n - n.c).range()[0] >= 0:
        acc = mksum(n - n.c, bv, g)
        for i in range(n.c):
            acc = acc + rewrite(g, {bv: n - n.c + i}, {})
        return acc
    acc = ZERO
    if g.c:
        acc = acc + n * g.c
    for a, k in g.t:
        if bv not in a.deep:
            acc = acc + mkprod(n, A(a)) * k
            continue
        a2 = unperm(a, n, bv)
        oc = _occ(a2, bv)
        if oc == {n - 1 - A(bv)}:
            a3 = rewrite_atom(a2, {bv: n - 1 - A(bv)}, {}).single()
            if a3 is not None:
                a2 = a3
        elif len(oc) == 1 and n.range()[0] >= 0:
            d = (next(iter(oc)) - A(bv)).const
            if d is not None and 0 < d <= 4:
                a3 = rewrite_atom(a2, {bv: A(bv) - d}, {}).single()
                if a3 is not None and _occ(a3, bv) == {A(bv)}:
                    s = mksum(n + d, bv, A(a3))
                    for i in range(d):
                        s = s - rewrite_atom(a3, {bv: C(i)}, {})
                    acc = acc + s * k
                    continue
        if n.const is not None and n.const <= 4:
            for i in range(n.const):
                acc = acc + rewrite_atom(a2, {bv: C(i)}, {}) * k
            continue
        lo, hi = n.range()
        slo = min(0, a2.lo * hi) if a2.lo < 0 else a2.lo * max(lo, 0)
        acc = acc + A(atom("sum", (n, bv, A(a2)), slo, max(0, a2.hi) * max(hi, 0))) * k
    return acc


def _occ(x, bv):
    import witness
    return witness.occurrences(x, bv)


def canonbv(da, bv):
    """bound variable named by the height of the term it binds in"""
    bound = {a.args[1] for a in da if a.kind == "sum"}
    h = 0
    for b in bound:
        if isinstance(b.args[0], int):
            h = max(h, b.args[0] + 1)
    free = {a.args[0] for a in da if a.kind == "bv" and a is not bv and a not in bound}
    while h in free:
        h += 1
    return atom("bv", (h,), 0, 1 << 62)


def unperm(a, n, bv):
    """a full sum over a permutation of the indices is the plain sum"""
    ps = [x for x in a.deep if x.kind == "fn" and x.args[0] == "perm" and x.args[3] == A(bv)]
    if len(ps) != 1:
        return a
    p = ps[0]
    if p.args[2] != n:
        return a
    r = rewrite_atom(a, {p: A(bv)}, {}) if bv not in _without(a, p) else None
    if r is None:
        return a
    s = r.single()
    return s if s is not None else a


def _without(a, p):
    """atoms of `a` reachable without going through p"""
    d = set()

    def go(x):
        if isinstance(x, Atom):
            if x is p or x in d:
                return
            d.add(x)
            go(x.args)
        elif isinstance(x, L):
            for y, _ in x.t:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif hasattr(x, "_f"):
            for f in x._f:
                go(getattr(x, f))
    go(a)
    return d


def mkprod(a, b):
    """product, distributed over both linear forms"""
    if a.const is not None:
        return b * a.const
    if b.const is not None:
        return a * b.const
    acc = b * a.c + L(0, a.t) * b.c
    for x, k in a.t:
        for y, j in b.t:
            ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            p, q = (x, y) if x.id <= y.id else (y, x)
            acc = acc + A(atom("prod", (A(p), A(q)), min(ps), max(ps))) * (k * j)
    return acc


def _rb_fn(a, m, memo):
    args = tuple(terms._rwx(y, m, memo) for y in a.args)
    if args[0] == "es":
        x = args[1] if isinstance(args[1], L) else A(args[1])
        return es(x)
    return A(atom("fn", args, a.lo, a.hi))


def _rb_sum(a, m, memo):
    n, bv, g = a.args
    if bv in m:
        m = {k: v for k, v in m.items() if k is not bv}
        memo = {}
    return mksum(rewrite(n, m, memo), bv, rewrite(g, m, memo))


def _rb_prod(a, m, memo):
    return mkprod(rewrite(a.args[0], m, memo), rewrite(a.args[1], m, memo))


def _rb_div(a, m, memo):
    x = rewrite(a.args[0], m, memo)
    k = a.args[1]
    if x.const is not None:
        return C(x.const // k)
    lo, hi = x.range()
    return A(atom("div", (x, k), max(lo, 0) // k, max(hi, 0) // k))


terms.REBUILD["fn"] = _rb_fn
terms.REBUILD["sum"] = _rb_sum
terms.REBUILD["prod"] = _rb_prod
terms.REBUILD["div"] = _rb_div


def tainted(x):
    """does a term depend on something the analysis could not represent?"""
    for a in _deepv(x):
        if a.kind == "lv" or a.kind == "fr" and a.args[0] in ("cast", "ptrcmp", "opq"):
            return True
        if _has(a.args, "opq"):
            return True
        if a.kind == "fn" and a.args[0] in ("maplen", "has") and any(isinstance(y, MapV) for y in a.args):
            return True
        if a.kind == "el" and isinstance(a.args[0], tuple) and a.args[0][:1] == ("seg",) and a.args[0][1] not in ("ilint", "ser"):
            return True
    return False


def _has(x, w):
    if isinstance(x, tuple):
        return any(_has(y, w) for y in x)
    return x == w


def opt_some(ty, v):
    return Enum(ty, 1, [v])


def opt_none(ty):
    return Enum(ty, 0, [])


def splitargs(s):
    """type arguments of a rendered type"""
    i = s.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:s.rindex(">")]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


PURE_OPAQUE = ("fmt", "panicking")


SKIP = object()     # an item a filter dropped

def _out():
    from interp import Out
    return Out


class Models:
    def __init__(self, ip):
        self.ip = ip
        self.err_paths = True       # model failing I/O
        self.T = {}
        for n in dir(self):
            if n.startswith("m_"):
                self.T[n[2:]] = getattr(self, n)

    # ------------------------------------------------------------ dispatch
    def head(self, s):
        """short family name of an impl self type"""
        if s is None:
            return None
        s = s.strip()
        while s.startswith("&"):
            s = re.sub(r"^&('\w+ )?(mut )?", "", s)
        s = s.strip("()")
        if s.startswith("["):
            return "array" if ";" in s else "slice"
        s = s.split("<")[0].rstrip(":")
        if s.startswith("dyn "):
            return "dyn"
        return {"std::vec::Vec": "vec", "std::string::String": "string", "std::boxed::Box": "box",
                "std::collections::HashMap": "map", "std::collections::BTreeMap": "map",
                "std::slice::Iter": "siter", "std::slice::IterMut": "siter",
                "std::vec::IntoIter": "into", "std::array::IntoIter": "into",
                "std::collections::hash_map::Iter": "miter", "std::collections::hash_map::Keys": "miter",
                "std::collections::hash_map::Values": "miter", "std::collections::hash_map::IntoIter": "miter",
                "std::collections::btree_map::Iter": "miter", "std::collections::btree_map::Keys": "miter",
                "std::slice::Chunks": "chunks", "std::slice::ChunksExact": "chunks",
                "std::slice::ChunksMut": "chunks", "std::slice::ChunksExactMut": "chunks",
                "std::str::Bytes": "siter",
                "std::iter::Copied": None, "std::iter::Cloned": None}.get(s, s)

    NUM = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128")

    def find(self, callee):
        k = callee.get("_m")
        if k is None:
            k = self._find(callee)
            callee["_m"] = k if k is not None else False
        return k or None

    def _find(self, callee):
        p = callee.get("rpath") or callee["path"]
        if p.startswith("il2_iltags"):
            return None
        name = callee["name"]
        h = self.head(callee.get("implself"))
        if h in self.NUM:
            r = self.T.get("num_" + name)
            if r:
                return r
        if h in ("f32", "f64"):
            r = self.T.get("float_" + name)
            if r:
                return r
        if h:
            r = self.T.get("%s_%s" % (h.split("::")[-1], name))
            if r:
                return r
        if h in ("slice", "array", "vec", "string", "str") and callee["kind"] != "unresolved":
            r = self.T.get("seq_" + name)
            if r:
                return r
        q = re.sub(r"::<[^>]*>", "", p).replace("std::", "").replace("core::", "")
        q = re.sub(r"[^A-Za-z0-9_]+", "_", q).strip("_")
        r = self.T.get("p_" + q)
        if r:
            return r
        if name not in ("take", "skip") and callee.get("trait") in ("std::iter::Iterator", "std::iter::DoubleEndedIterator",
                                   "std::iter::ExactSizeIterator") and h in ("siter", "into", "miter", "chunks"):
            r = self.T.get("it_" + name)
            if r:
                return r
        if callee.get("trait") in ("std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator"):
            if name in ("take", "skip"):
                return self.m_it_take
            if (callee.get("implself") or "").startswith(("std::iter::Take<", "std::iter::Skip<")):
                r = self.T.get("it_" + name)
                if r:
                    return lambda st, c, a, dty, loc: self._cutshort(r, st, c, a, dty, loc)
        if callee["kind"] == "intrinsic":
            return self.T.get("intr_" + name)
        return None

    # ------------------------------------------------------------ helpers
    def ret(self, st, v):
        from interp import Out
        return [Out("ret", st, v)]

    def unit(self, st):
        return self.ret(st, Struct("()", []))

    def panic(self, st, kind, loc):
        from interp import Out
        return Out("panic", st, None, self.ip.panic_info(kind, loc))

    def guard(self, st, cond, kind, loc, cont):
        self.ip.stats["asserts"] += 1
        out = []
        for s in self.ip.branch(st, cond):
            out += cont(s)
        if cond is not True:
            for s in self.ip.branch(st, negc(cond)):
                out.append(self.panic(s, kind, loc))
        return out

    def fork(self, st, cond, yes, no):
        out = []
        for s in self.ip.branch(st, cond):
            out += yes(s)
        for s in self.ip.branch(st, negc(cond)):
            out += no(s)
        return out

    def seqof(self, st, v):
        """contents of a slice/array/Vec/String reference or value"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ptr):
            x = self.ip.load(st, v.cell, v.path)
            if isinstance(x, Ptr):
                return self.seqof(st, x)
            return self.ip.ptrseq(st, v)
        if isinstance(v, Opq) and self.ip.is_seq(v.ty):
            return self.ip.sym(v.ty, v.name)
        raise GiveUp("sequence expected: %r" % (v,))

    def flat(self, st, p):
        """follow references to references down to the sequence"""
        while isinstance(p, Ptr) and p.rng is None:
            x = self.ip.load(st, p.cell, p.path)
            if isinstance(x, Ptr):
                p = x
            else:
                break
        return p

    def log(self, st, ev):
        st.log = st.log + (ev,)
        if self.ip.hook is not None and not self.ip.quiet:
            self.ip.hook(st, ev)

    def where(self, loc):
        return self.ip.where(loc)

    def alloc(self, st, n, ety, loc):
        self.log(st, Ev("alloc", None, True, self.where(loc), n=n, ety=ety))

    def rangeof(self, st, r, n):
        """(start, end, conds) of a range index value over length n"""
        if isinstance(r, L):
            return None
        ty = getattr(r, "ty", "")
        if isinstance(r, Opq):
            r = self.ip.expand(r)
        f = r.fields
        if ty.startswith("std::ops::RangeFull"):
            return ZERO, n
        if ty.startswith("std::ops::RangeFrom<"):
            return f[0], n
        if ty.startswith("std::ops::RangeToInclusive<"):
            return ZERO, f[0] + 1
        if ty.startswith("std::ops::RangeTo<"):
            return ZERO, f[0]
        if ty.startswith("std::ops::RangeInclusive<"):
            return f[0], f[1] + 1
        if ty.startswith("std::ops::Range<"):
            return f[0], f[1]
        raise GiveUp("range %r" % (r,))

    # ------------------------------------------------------------ Box
    def m_box_new(self, st, c, a, dty, loc):
        ty = self.ip.pointee(dty) or "?"
        cell = self.ip.newcell(st, a[0], ty, "box")
        return self.ret(st, Ptr(cell))

    def m_box_new_uninit(self, st, c, a, dty, loc):
        """vec![..]: a box that is written as a whole and then turned into a vector"""
        ty = self.ip.pointee(dty) or "?"
        cell = self.ip.newcell(st, Struct(ty, [Opq("()", ("uninit",)), Struct("md", [Opq("?", ("uninit", uid()))])]), ty, "box")
        return self.ret(st, Ptr(cell))

    def m_p_boxed_box_assume_init_into_vec_unsafe(self, st, c, a, dty, loc):
        v = self.ip.load(st, a[0].cell, a[0].path)
        v = v.fields[1].fields[0]
        if not isinstance(v, Seq):
            raise GiveUp("vec![..] of %s" % v)
        self.alloc(st, v.len, v.ety, loc)
        return self.ret(st, Seq(v.ety, v.segs))

    def m_box_as_ref(self, st, c, a, dty, loc):
        return self.ret(st, self._unbox(st, a[0]))

    m_box_as_mut = m_box_as_ref
    m_box_deref = m_box_as_ref
    m_box_deref_mut = m_box_as_ref
    m_box_borrow = m_box_as_ref

    def _unbox(self, st, p):
        v = self.ip.load(st, p.cell, p.path)
        if isinstance(v, Opq):
            v = self.ip.symptr(self.ip.pointee(v.ty), v.name)
        return v

    # ------------------------------------------------------------ sequences
    def m_seq_len(self, st, c, a, dty, loc):
        p = a[0]
        if isinstance(p, Ptr) and p.rng is not None:
            return self.ret(st, st.norm(p.rng[1]))
        return self.ret(st, st.norm(self.seqof(st, p).len))

    def m_seq_is_empty(self, st, c, a, dty, loc):
        p = a[0]
        n = p.rng[1] if isinstance(p, Ptr) and p.rng is not None else self.seqof(st, p).len
        return self.ret(st, eq(st.norm(n), ZERO))

    def view(self, st, p):
        """slice pointer over the whole of what p refers to"""
        p = self.flat(st, p)
        if p.rng is not None:
            return p
        return Ptr(p.cell, p.path, (ZERO, st.norm(self.seqof(st, p).len)))

    def m_seq_deref(self, st, c, a, dty, loc):
        return self.ret(st, self.view(st, a[0]))

    m_seq_deref_mut = m_seq_deref
    m_seq_as_slice = m_seq_deref
    m_seq_as_mut_slice = m_seq_deref
    m_seq_as_bytes = m_seq_deref
    m_seq_as_str = m_seq_deref
    m_seq_as_mut_str = m_seq_deref
    m_seq_as_ref = m_seq_deref
    m_seq_as_mut = m_seq_deref
    m_seq_borrow = m_seq_deref
    m_seq_borrow_mut = m_seq_deref

    def m_seq_index(self, st, c, a, dty, loc):
        p = self.flat(st, a[0])
        base = p.rng[0] if p.rng is not None else ZERO
        n = p.rng[1] if p.rng is not None else self.seqof(st, p).len
        n = st.norm(n)
        i = a[1]
        if isinstance(i, L):
            def go(s):
                return self.ret(s, Ptr(p.cell, p.path + (("ix", s.norm(base + i)),)))
            return self.guard(st, conj([ge(i, ZERO), lt(i, n)]), "index", loc, go)
        lo, hi = self.rangeof(st, i, n)
        lo, hi = st.norm(lo), st.norm(hi)

        def go(s):
            return self.ret(s, Ptr(p.cell, p.path, (s.norm(base + lo), s.norm(hi - lo))))
        if self.istext(c):
            w = Ptr(p.cell, p.path, (base, n))
            return self.guard(st, conj([ge(hi, lo), ge(n, hi)]), "slice-index", loc,
                              lambda s: self.boundary(s, w, [lo, hi], loc, go))
        return self.guard(st, conj([ge(hi, lo), ge(n, hi)]), "slice-index", loc, go)

    m_seq_index_mut = m_seq_index

    def istext(self, c):
        return self.head(c.get("implself")) in ("str", "string")

    def boundary(self, st, p, at, loc, cont, other=None):
        """continue if every position of `at` (within the text p views) is a character boundary, otherwise panic"""
        n = p.rng[1]
        at = [i for i in map(st.norm, at) if not (i.const == 0 or st.same(i, n))]
        if not at:
            return cont(st)
        i, rest = at[0], at[1:]

        def inside(s):
            b = self.ip.seqget(s, self.ip.ptrseq(s, p), i)
            fine = disj([lt(b, C(128)), ge(b, C(192))])
            if other is not None:
                return self.fork(s, fine, lambda z: self.boundary(z, p, rest, loc, cont, other), other)
            return self.guard(s, fine, "char-boundary", loc, lambda z: self.boundary(z, p, rest, loc, cont))
        return self.fork(st, conj([ge(i, ONE), lt(i, n)]), inside, lambda z: self.boundary(z, p, rest, loc, cont, other))

    def _get(self, st, c, a, dty, loc):
        p = self.flat(st, a[0])
        base = p.rng[0] if p.rng is not None else ZERO
        n = st.norm(p.rng[1] if p.rng is not None else self.seqof(st, p).len)
        i = a[1]
        if isinstance(i, L):
            return self.fork(st, lt(i, n),
                             lambda s: self.ret(s, opt_some(dty, Ptr(p.cell, p.path + (("ix", s.norm(base + i)),)))),
                             lambda s: self.ret(s, opt_none(dty)))
        lo, hi = self.rangeof(st, i, n)

        def some(s):
            return self.ret(s, opt_some(dty, Ptr(p.cell, p.path, (s.norm(base + lo), s.norm(hi - lo)))))

        def none(s):
            return self.ret(s, opt_none(dty))
        if self.istext(c):
            w = Ptr(p.cell, p.path, (base, n))
            return self.fork(st, conj([ge(hi, lo), ge(n, hi)]), lambda s: self.boundary(s, w, [lo, hi], loc, some, none), none)
        return self.fork(st, conj([ge(hi, lo), ge(n, hi)]), some, none)

    m_seq_get = _get
    m_seq_get_mut = _get

    def _first(self, st, c, a, dty, loc):
        return self._get(st, c, [a[0], ZERO], dty, loc)

    m_seq_first = _first
    m_seq_first_mut = _first

    def _last(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        return self.fork(st, ge(p.rng[1], ONE),
                         lambda s: self.ret(s, opt_some(dty, Ptr(p.cell, p.path + (("ix", s.norm(p.rng[0] + p.rng[1] - 1)),)))),
                         lambda s: self.ret(s, opt_none(dty)))

    m_seq_last = _last
    m_seq_last_mut = _last

    def m_seq_split_at(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        o, n = p.rng
        m = a[1]

        def two(s):
            return self.ret(s, Struct(dty, [Ptr(p.cell, p.path, (o, s.norm(m))), Ptr(p.cell, p.path, (s.norm(o + m), s.norm(n - m)))]))
        return self.guard(st, ge(n, m), "split_at", loc,
                          lambda s: self.boundary(s, p, [m], loc, two) if self.istext(c) else two(s))

    m_seq_split_at_mut = m_seq_split_at

    def m_seq_split_first(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        o, n = p.rng
        tt = splitargs(dty)[0]
        return self.fork(st, ge(n, ONE),
                         lambda s: self.ret(s, opt_some(dty, Struct(tt, [Ptr(p.cell, p.path + (("ix", o),)),
                                                                         Ptr(p.cell, p.path, (s.norm(o + 1), s.norm(n - 1)))]))),
                         lambda s: self.ret(s, opt_none(dty)))

    m_seq_split_first_mut = m_seq_split_first

    def _trim(self, st, c, a, dty, loc):
        """what is left of a text: some part of it, the same part for the same text and pattern"""
        pat = a[1] if len(a) > 1 else None
        if pat is not None and not isinstance(pat, L):
            return None
        p = self.view(st, a[0])
        o, n = p.rng
        nm = c["name"].replace("_matches", "")
        key = (str(pat), self.ip.ptrseq(st, p))
        b = ZERO if nm == "trim_end" else fn("trim0", key, 0, 1 << 40)
        k = n - b if nm == "trim_start" else fn("trimn", (nm,) + key, 0, 1 << 40)
        st = st.copy()
        if not st.assume(ge(b, ZERO)) or not st.assume(ge(k, ZERO)) or not st.assume(ge(n, b + k)):
            return []
        return self.ret(st, Ptr(p.cell, p.path, (st.norm(o + b), st.norm(k))))

    m_seq_trim = m_seq_trim_start = m_seq_trim_end = _trim
    m_seq_trim_matches = m_seq_trim_start_matches = m_seq_trim_end_matches = _trim
    m_seq_trim_left = m_seq_trim_right = None

    def m_seq_is_char_boundary(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        no = lambda s: self.ret(s, False)
        return self.fork(st, ge(p.rng[1], a[1]), lambda s: self.boundary(s, p, [a[1]], loc, lambda z: self.ret(z, True), no), no)

    def m_seq_copy_from_slice(self, st, c, a, dty, loc):
        d, s = self.view(st, a[0]), self.view(st, a[1])

        def go(z):
            src = self.ip.ptrseq(z, s)
            self.ip.ptrfill(z, d, src)
            return self.unit(z)
        return self.guard(st, eq(d.rng[1], s.rng[1]), "copy_from_slice", loc, go)

    m_seq_clone_from_slice = m_seq_copy_from_slice

    def m_seq_fill(self, st, c, a, dty, loc):
        d = self.view(st, a[0])
        self.ip.ptrfill(st, d, Seq(self.seqof(st, d).ety, [(d.rng[1], "r", a[1])]))
        return self.unit(st)

    def m_seq_to_vec(self, st, c, a, dty, loc):
        v = self.seqof(st, self.flat(st, a[0]))
        self.alloc(st, v.len, v.ety, loc)
        return self.ret(st, Seq(v.ety, v.segs))

    m_seq_to_owned = m_seq_to_vec
    m_seq_into_vec = m_seq_to_vec
    m_seq_to_string = m_seq_to_vec
    m_seq_clone = m_seq_to_vec
    m_seq_into_boxed_slice = m_seq_to_vec

    def m_p_T_as_string_ToString_to_string(self, st, c, a, dty, loc):
        """to_string of text"""
        t = (c.get("rtargs") or c.get("targs") or [""])[0]
        h = self.head(t)
        if h in ("str", "string"):
            return self.m_seq_to_vec(st, c, a, dty, loc)
        return None

    def m_p_slice_from_ref(self, st, c, a, dty, loc):
        """a slice of the one thing referred to, which stays as it is while it is borrowed"""
        if not isinstance(a[0], Ptr) or a[0].rng is not None:
            return None
        st = st.copy()
        v = self.ip.load(st, a[0].cell, a[0].path)
        ety = (c.get("rtargs") or c.get("targs"))[0]
        cell = self.ip.newcell(st, Seq(ety, [(ONE, "e", v)]), "[%s]" % ety)
        return self.ret(st, Ptr(cell, (), (ZERO, ONE)))

    def _cow(self, st, x):
        if isinstance(x, Ptr):
            x = self.ip.load(st, x.cell, x.path)
        if isinstance(x, Enum) and len(x.fields) == 1:
            return x
        raise GiveUp("Cow %r" % (x,))

    def m_Cow_into_owned(self, st, c, a, dty, loc):
        x = self._cow(st, a[0])
        if x.var == 1:
            return self.ret(st, x.fields[0])
        return self.m_seq_to_vec(st, c, [x.fields[0]], dty, loc)

    def m_Cow_deref(self, st, c, a, dty, loc):
        x = self._cow(st, a[0])
        if x.var == 0:
            return self.ret(st, x.fields[0])
        st = st.copy()
        return self.ret(st, self.view(st, Ptr(self.ip.newcell(st, x.fields[0], "std::string::String"))))

    m_Cow_as_ref = m_Cow_deref

    def m_seq_into_bytes(self, st, c, a, dty, loc):
        return self.ret(st, self.seqof(st, a[0]))

    m_seq_into = m_seq_into_bytes
    m_seq_into_string = m_seq_into_bytes

    def m_seq_reverse(self, st, c, a, dty, loc):
        d = self.view(st, a[0])
        v = self.ip.ptrseq(st, d)
        if any(s[1] not in ("e", "r") for s in v.segs):
            n = v.len
            g = v.segs[0] if len(v.segs) == 1 else None
            if g is not None and g[1] == "star" and len(g[4]) == 1 and g[4][0][0] == ONE and g[4][0][1] == "e":
                e = rewrite(g[4][0][2], {g[3]: g[2] - 1 - A(g[3])}, {})
                self.ip.ptrfill(st, d, Seq(v.ety, [(g[0], "star", g[2], g[3], ((ONE, "e", e),))]))
                return self.unit(st)
            if n.const is None or n.const > 64:
                raise GiveUp("reverse of symbolic sequence")
            segs = [(ONE, "e", self.ip.seqget(st, v, C(i))) for i in reversed(range(n.const))]
        else:
            segs = list(reversed(v.segs))
        self.ip.ptrfill(st, d, Seq(v.ety, segs))
        return self.unit(st)

    def m_seq_swap(self, st, c, a, dty, loc):
        d = self.view(st, a[0])
        i, j = a[1], a[2]

        def go(s):
            v = self.ip.ptrseq(s, d)
            x, y = self.ip.seqget(s, v, i), self.ip.seqget(s, v, j)
            v = self.ip.seqset(s, self.ip.seqset(s, v, i, y), j, x)
            self.ip.ptrfill(s, d, v)
            return self.unit(s)
        return self.guard(st, conj([lt(i, d.rng[1]), lt(j, d.rng[1])]), "index", loc, go)

    def seqeq(self, st, x, y):
        """condition that two byte sequences are equal, or None when unknown"""
        nx, ny = st.norm(x.len), st.norm(y.len)
        d = st.decide(eq(nx, ny))
        if d is False:
            return False
        if x.segs == y.segs:
            return True
        if nx.const is not None and nx == ny and nx.const <= 64:
            cs = []
            for i in range(nx.const):
                p, q = self.ip.seqget(st, x, C(i)), self.ip.seqget(st, y, C(i))
                if not (isinstance(p, L) and isinstance(q, L)):
                    return None
                cs.append(eq(st.norm(p), st.norm(q)))
            return conj(cs)
        # (an order that does not change when lengths turn out to be equal)
        x, y = sorted((x, y), key=lambda z: (str([g[1:3] for g in z.segs]), str(z)))
        e = mkc("ne", A(atom("fn", ("seqeq", x, y), 0, 1)))
        return conj([eq(nx, ny), e])

    def m_seq_eq(self, st, c, a, dty, loc):
        x, y = self.seqof(st, self.flat(st, a[0])), self.seqof(st, self.flat(st, a[1]))
        r = self.seqeq(st, x, y)
        if r is None:
            raise GiveUp("sequence comparison")
        return self.ret(st, r)

    def m_seq_ne(self, st, c, a, dty, loc):
        o = self.m_seq_eq(st, c, a, dty, loc)
        o[0].val = negc(o[0].val)
        return o

    def m_seq_starts_with(self, st, c, a, dty, loc):
        return self.affix(st, c, a, False)

    def m_seq_ends_with(self, st, c, a, dty, loc):
        return self.affix(st, c, a, True)

    def affix(self, st, c, a, end):
        try:
            x, y = self.seqof(st, self.flat(st, a[0])), self.seqof(st, self.flat(st, a[1]))
        except (GiveUp, AttributeError):
            return self.ret(st, mkc("ne", fresh("opq", 0, 1)))
        nx, ny = st.norm(x.len), st.norm(y.len)

        def longer(s):
            part = self.ip.seqslice(s, x, nx - ny if end else ZERO, ny)
            e = self.seqeq(s, part, y)
            return self.ret(s, mkc("ne", fresh("opq", 0, 1)) if e is None else e)
        return self.fork(st, ge(nx, ny), longer, lambda s: self.ret(s, False))

    def _sort(self, st, c, a, dty, loc, by="ord"):
        d = self.view(st, a[0])
        v = self.ip.ptrseq(st, d)
        if len(v.segs) == 1 and v.segs[0][1] == "star":
            n, _, cnt, bv, body = v.segs[0]
            if len(body) == 1 and body[0][0] == ONE and body[0][1] == "e":
                nm = ("sorted", by if isinstance(by, tuple) else (by,), body[0][2])
                p = A(atom("fn", ("perm", rewrite(nm, {bv: ZERO}, {}), cnt, A(bv)), 0, ISIZE))
                nb = ((ONE, "e", rewrite(body[0][2], {bv: p}, {})),)
                self.ip.ptrfill(st, d, Seq(v.ety, [(n, "star", cnt, bv, nb)]))
                return self.unit(st)
        if v.len.const in (0, 1) or self.ip.refute and by == "ord" and all(g[1] == "e" for g in v.segs):
            # (looking for violations: the inputs whose elements are in order already)
            return self.unit(st)
        n = st.norm(v.len)
        self.ip.ptrfill(st, d, Seq(v.ety, [(n, "o", ("sorted", by, v), ZERO)]))
        return self.unit(st)

    m_seq_sort_unstable = _sort
    m_seq_sort = _sort

    def _sortby(self, st, c, a, dty, loc):
        """sorting with a key function or comparator: identified by what it compares"""
        d = self.view(st, a[0])
        v = self.ip.ptrseq(st, d)
        by = self.sortkey(st, v, a[1], c, loc)
        return self._sort(st, c, a[:1], dty, loc, by)

    m_seq_sort_by = _sortby
    m_seq_sort_unstable_by = _sortby
    m_seq_sort_by_key = _sortby
    m_seq_sort_unstable_by_key = _sortby
    m_seq_sort_by_cached_key = _sortby

    def sortkey(self, st, v, f, c, loc):
        """what the elements are ordered by, as a function of element 0: ('by', x), ('rev', x) or ('opq', _)"""
        ip = self.ip
        s = st.copy()
        if len(v.segs) == 1 and v.segs[0][1] == "star" and len(v.segs[0][4]) == 1 and v.segs[0][4][0][1] == "e":
            bv, e = v.segs[0][3], v.segs[0][4][0][2]
            i1, i2 = fresh("cmp", 0, ISIZE), fresh("cmp", 0, ISIZE)
            e1, e2 = rewrite(e, {bv: i1}, {}), rewrite(e, {bv: i2}, {})
        else:
            i1 = i2 = None
            e1, e2 = ip.sym(v.ety, ("cmp", 1)), ip.sym(v.ety, ("cmp", 2))
        p1, p2 = Ptr(ip.newcell(s, e1, v.ety)), Ptr(ip.newcell(s, e2, v.ety))
        old, self.sorting = self.sorting, []
        try:
            if c["name"].endswith("key"):
                o = [x for x in ip.call_value(f, [p1], s, "?", loc) if x.kind != "panic"]
                if len(o) == 1 and i1 is not None:
                    x = o[0].val
                    while isinstance(x, Ptr) and x.cell == p1.cell and not x.path:
                        x = e1
                    return ("by", self.at0(o[0].st, x, i1))
                return ("opq", uid())
            o = ip.call_value(f, [p1, p2], s, "std::cmp::Ordering", loc)
            if len(self.sorting) == 1 and i1 is not None and len(o) == 1 and isinstance(o[0].val, Opq) and o[0].val.name[0] == "cmp":
                x, y = self.sorting[0]
                if o[0].val.name[1:] == (x, y):
                    if rewrite(x, {i1.single(): i2}, {}) == y:
                        return ("by", rewrite(x, {i1.single(): ZERO}, {}))
                    if rewrite(y, {i1.single(): i2}, {}) == x:
                        return ("rev", rewrite(y, {i1.single(): ZERO}, {}))
            if i1 is not None:
                # a comparator that settles the order of two non-empty keys by their lengths
                every = {x for z in o for f in z.st.facts if f not in s.facts and isinstance(f, L) for x, _ in f.t}
                for z in o:
                    if z.kind == "ret" and isinstance(z.val, (Enum, L)) and not z.st.notes:
                        fs = [f for f in z.st.facts if f not in s.facts]
                        at = {x for f in fs for x, _ in f.t} if all(isinstance(f, L) for f in fs) else ()
                        if fs and at and all(x.kind == "fn" and x.args[0] == "len" for x in at):
                            q = z.st.copy()
                            if all(q.assume(ge(A(x), 1)) is not False for x in every if x.kind == "fn" and x.args[0] == "len"):
                                return ("len", rewrite(A(sorted(at, key=str)[0]), {i1.single(): ZERO, i2.single(): ZERO}, {}))
        finally:
            self.sorting = old
        return ("opq", uid())

    def at0(self, st, x, i1):
        if isinstance(x, Ptr):
            try:
                x = self.seqof(st, x)
            except GiveUp:
                pass
        return rewrite(x, {i1.single(): ZERO}, {})

    sorting = None

    def m_seq_cmp(self, st, c, a, dty, loc):
        x, y = self.seqof(st, self.flat(st, a[0])), self.seqof(st, self.flat(st, a[1]))
        if self.sorting is not None:
            self.sorting.append((x, y))
            return self.ret(st, Opq(dty, ("cmp", x, y)))
        same = self.seqeq(st, x, y) if dty.endswith("Ordering") else None
        if same is None:
            return self.ret(st, Opq(dty, ("cmp", x, y)))
        # which of the two comes first is settled by this pair of values alone
        less = mkc("ne", A(atom("fn", ("seqlt", x, y), 0, 1)))
        return self.fork(st, same, lambda s: self.ret(s, Enum(dty, 1, [])),
                         lambda s: self.fork(s, less, lambda q: self.ret(q, Enum(dty, 0, [])), lambda q: self.ret(q, Enum(dty, 2, []))))

    m_seq_partial_cmp = m_seq_cmp

    # ------------------------------------------------------------ Vec / String
    def m_vec_new(self, st, c, a, dty, loc):
        return self.ret(st, Seq(self.ip.ety(dty), []))

    m_string_new = m_vec_new
    m_vec_default = m_vec_new
    m_string_default = m_vec_new

    def m_vec_with_capacity(self, st, c, a, dty, loc):
        ety = self.ip.ety(dty)

        def go(s):
            self.alloc(s, s.norm(a[0]), ety, loc)
            return self.ret(s, Seq(ety, []))
        return self.guard(st, ge(C(ISIZE // self.ip.esize(ety)), a[0]), "capacity", loc, go)

    m_string_with_capacity = m_vec_with_capacity

    def m_p_vec_from_elem(self, st, c, a, dty, loc):
        ety = self.ip.ety(dty)

        def go(s):
            n = s.norm(a[1])
            self.alloc(s, n, ety, loc)
            return self.ret(s, Seq(ety, [(n, "r", a[0])]))
        return self.guard(st, ge(C(ISIZE // self.ip.esize(ety)), a[1]), "capacity", loc, go)

    def m_vec_reserve(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        n = st.norm(v.len + a[1])

        def go(s):
            self.alloc(s, s.norm(a[1]), v.ety, loc)
            return self.unit(s)
        return self.guard(st, ge(C(ISIZE // self.ip.esize(v.ety)), n), "capacity", loc, go)

    m_vec_reserve_exact = m_vec_reserve
    m_string_reserve = m_vec_reserve

    def setseq(self, st, p, v):
        p = self.flat(st, p)
        self.ip.store(st, p.cell, p.path, v)

    def m_vec_push(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        self.setseq(st, a[0], Seq(v.ety, v.segs + ((ONE, "e", a[1]),)))
        return self.unit(st)

    def m_vec_insert(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        i = a[1]

        def go(s):
            l, r = self.ip.seqsplit(s, v, i)
            self.setseq(s, a[0], Seq(v.ety, tuple(l) + ((ONE, "e", a[2]),) + tuple(r)))
            return self.unit(s)
        return self.guard(st, ge(v.len, i), "insert", loc, go)

    def m_string_insert_str(self, st, c, a, dty, loc):
        v, w = self.seqof(st, a[0]), self.seqof(st, self.flat(st, a[2]))
        i = a[1]

        def go(s):
            l, r = self.ip.seqsplit(s, v, i)
            self.setseq(s, a[0], Seq(v.ety, tuple(l) + tuple(w.segs) + tuple(r)))
            return self.unit(s)
        return self.guard(st, ge(v.len, i), "insert", loc, lambda s: self.within(s, v, [i], loc, go))

    def m_vec_remove(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        i = st.norm(a[1])

        def go(s):
            x = self.ip.seqget(s, v, i)
            l, r = self.ip.seqslice(s, v, ZERO, i), self.ip.seqslice(s, v, i + 1, v.len - i - 1)
            self.setseq(s, a[0], Seq(v.ety, l.segs + r.segs))
            return self.ret(s, x)
        return self.guard(st, lt(i, v.len), "remove", loc, go)

    def m_vec_pop(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])

        def yes(s):
            n = s.norm(v.len)
            x = self.ip.seqget(s, v, n - 1)
            self.setseq(s, a[0], self.ip.seqslice(s, v, ZERO, n - 1))
            return self.ret(s, opt_some(dty, x))
        return self.fork(st, ge(v.len, ONE), yes, lambda s: self.ret(s, opt_none(dty)))

    def m_vec_clear(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        self.setseq(st, a[0], Seq(v.ety, []))
        return self.unit(st)

    m_string_clear = m_vec_clear

    def m_vec_truncate(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])

        def cut(s):
            self.setseq(s, a[0], self.ip.seqslice(s, v, ZERO, a[1]))
            return self.unit(s)
        return self.fork(st, ge(a[1], v.len), lambda s: self.unit(s),
                         lambda s: self.within(s, v, [a[1]], loc, cut) if self.istext(c) else cut(s))

    m_string_truncate = m_vec_truncate

    def within(self, st, v, at, loc, cont):
        """boundary() for the text held by value v"""
        cell = self.ip.newcell(st, v, None)
        return self.boundary(st, Ptr(cell, (), (ZERO, st.norm(v.len))), at, loc, cont)

    def _thin(self, st, c, a, dty, loc):
        """dedup, dedup_by, dedup_by_key, retain of a vector of known length"""
        v = self.seqof(st, a[0])
        n = st.norm(v.len).const
        if n is None or n > 8:
            return None
        how = c["name"]

        def verdicts(s, kept, x):
            """[(state, keep it?)] or outcomes of a panicking closure"""
            args = []
            s = s.copy()
            for y in ([x] if how == "retain" or not kept else [x, kept[-1]]):
                args.append(Ptr(self.ip.newcell(s, y, v.ety)))
            if how == "retain":
                return [(z, k == "go") if not isinstance(k, _out()) else (z, k) for z, k, _ in
                        self.asked(a[1], s, args, loc, ("go", None), ("stop", None))]
            if not kept:
                return [(s, True)]
            if how == "dedup_by":
                return [(z, k == "go") if not isinstance(k, _out()) else (z, k) for z, k, _ in
                        self.asked(a[1], s, args, loc, ("stop", None), ("go", None))]
            pair = [(s, [])]
            for p in args:
                nxt = []
                for z, ks in pair:
                    if how == "dedup":
                        nxt.append((z, ks + [self.ip.deref(z, p)]))
                        continue
                    for o in self.ip.call_value(a[1], [p], z, None, loc):
                        if o.kind == "panic":
                            return [(o.st, o)]
                        nxt.append((o.st, ks + [o.val]))
                pair = nxt
            res = []
            for z, (k1, k2) in pair:
                cond = self.alike(z, k1, k2)
                if cond is None:
                    raise GiveUp("comparison of %r with %r" % (k1, k2))
                res += [(y, False) for y in self.ip.branch(z, cond)] + [(y, True) for y in self.ip.branch(z, negc(cond))]
            return res
        todo, out = [(st, 0, [])], []
        while todo:
            s, i, kept = todo.pop()
            if i == n:
                s = s.copy()
                self.setseq(s, a[0], Seq(v.ety, [(ONE, "e", x) for x in kept]))
                out += self.unit(s)
                continue
            x = self.ip.seqget(s, v, C(i))
            for z, k in verdicts(s, kept, x):
                if isinstance(k, _out()):
                    out.append(k)
                else:
                    todo.append((z, i + 1, kept + [x] if k else kept))
        return out

    m_vec_dedup = m_vec_dedup_by = m_vec_dedup_by_key = m_vec_retain = _thin

    def alike(self, st, x, y):
        """condition that two values are equal, or None"""
        while isinstance(x, Ptr) and isinstance(y, Ptr):
            if x == y:
                return True
            if x.rng is not None or y.rng is not None:
                x, y = self.ip.ptrseq(st, x), self.ip.ptrseq(st, y)
            else:
                x, y = self.ip.deref(st, x), self.ip.deref(st, y)
        if isinstance(x, L) and isinstance(y, L):
            return eq(x, y)
        if isinstance(x, Seq) and isinstance(y, Seq):
            return self.seqeq(st, x, y)
        return None

    def m_vec_resize(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        n = a[1]

        def shrink(s):
            self.setseq(s, a[0], self.ip.seqslice(s, v, ZERO, s.norm(n)))
            return self.unit(s)

        def grow(s):
            from interp import merge_segs
            m = s.norm(n - v.len)
            self.alloc(s, m, v.ety, loc)
            self.setseq(s, a[0], Seq(v.ety, merge_segs(v.segs + ((m, "r", a[2]),))))
            return self.unit(s)
        return self.guard(st, ge(C(ISIZE // self.ip.esize(v.ety)), n), "capacity", loc,
                          lambda z: self.fork(z, ge(v.len, n), shrink, grow))

    def m_vec_extend_from_slice(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        w = self.seqof(st, self.flat(st, a[1]))
        self.alloc(st, st.norm(w.len), v.ety, loc)
        from interp import merge_segs
        self.setseq(st, a[0], Seq(v.ety, merge_segs(v.segs + w.segs)))
        return self.unit(st)

    m_string_push_str = m_vec_extend_from_slice

    def m_vec_extend(self, st, c, a, dty, loc):
        return self.drain_into(st, a[0], a[1], c, loc)

    def drain_into(self, st, p, it, c, loc):
        it2 = self.iterof(st, it)
        v = self.seqof(st, p)
        if isinstance(it2, Struct) and it2.ty == "$slice":
            w = self.ip.ptrseq(st, Ptr(it2.fields[0].cell, it2.fields[0].path, it2.fields[0].rng))
            w = self.ip.seqslice(st, w, it2.fields[1], it2.fields[2] - it2.fields[1])
            if self.ip.intinfo(v.ety):
                self.setseq(st, p, Seq(v.ety, v.segs + w.segs))
                return self.unit(st)
        if isinstance(it2, Struct) and it2.ty == "$into":
            w = self.ip.seqslice(st, it2.fields[0], it2.fields[1], it2.fields[2] - it2.fields[1])
            self.setseq(st, p, Seq(v.ety, v.segs + w.segs))
            return self.unit(st)
        raise GiveUp("extend from %r" % (it,))

    def m_vec_append(self, st, c, a, dty, loc):
        v, w = self.seqof(st, a[0]), self.seqof(st, a[1])
        self.setseq(st, a[0], Seq(v.ety, v.segs + w.segs))
        self.setseq(st, a[1], Seq(v.ety, []))
        return self.unit(st)

    def m_vec_capacity(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        r = fresh("cap", 0, ISIZE)
        st.assume(ge(r, v.len))
        return self.ret(st, r)

    def m_vec_shrink_to_fit(self, st, c, a, dty, loc):
        return self.unit(st)

    def m_vec_from(self, st, c, a, dty, loc):
        x = a[0]
        v = self.seqof(st, self.flat(st, x)) if isinstance(x, (Ptr, Seq, Opq)) else None
        if v is None:
            raise GiveUp("from")
        return self.ret(st, Seq(self.ip.ety(dty), v.segs))

    m_string_from = m_vec_from
    m_string_from_str = None

    def m_string_replace_range(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        w = self.seqof(st, self.flat(st, a[2]))
        lo, hi = self.rangeof(st, a[1], st.norm(v.len))
        if lo.const == 0 and st.same(hi, v.len):
            self.setseq(st, a[0], Seq("u8", w.segs))
            return self.unit(st)

        def go(s):
            self.setseq(s, a[0], self.ip.seqreplace(s, v, lo, hi - lo, w))
            return self.unit(s)
        return self.guard(st, conj([ge(hi, lo), ge(v.len, hi)]), "slice-index", loc, lambda s: self.within(s, v, [lo, hi], loc, go))

    def utf8(self, st, v):
        """True if the bytes are known to be valid UTF-8 (contents of strings), else a condition"""
        ok = True
        for s in v.segs:
            if s[1] == "o" and isinstance(s[2], tuple) and s[2] and s[2][0] == "s" and s[3] == ZERO and \
                    st.same(s[0], A(atom("fn", ("len", s[2][1]), 0, self.ip.lenmax("u8")))):
                continue
            if s[1] == "e" and isinstance(s[2], L) and st.prove(C(127) - s[2]):
                continue
            if s[1] == "r" and isinstance(s[2], L) and st.prove(C(127) - s[2]):
                continue
            ok = False
        if ok:
            return True
        return mkc("ne", A(atom("fn", ("utf8", Seq("u8", v.segs)), 0, 1)))

    def strof(self, st, v):
        return v

    def _from_utf8(self, st, c, a, dty, loc):
        v = self.seqof(st, self.flat(st, a[0]) if isinstance(a[0], Ptr) else a[0])
        cond = self.utf8(st, v)
        targ = self.ip.t(dty)

        def yes(s):
            self.log(s, Ev("utf8", None, True, self.where(loc), seq=v))
            return self.ret(s, Enum(dty, 0, [a[0]]))

        def no(s):
            self.log(s, Ev("utf8", None, False, self.where(loc), seq=v))
            et = self.ip.t(dty)["variants"][1]["fields"][0]["ty"]
            return self.ret(s, Enum(dty, 1, [Opq(et, ("utf8err", v))]))
        return self.fork(st, cond, yes, no)

    def m_Utf8Error_valid_up_to(self, st, c, a, dty, loc):
        e = a[0] if isinstance(a[0], Opq) else self.ip.load(st, a[0].cell, a[0].path)
        if not isinstance(e, Opq) or e.name[0] != "utf8err":
            return None
        n = fn("utf8ok", (e.name[1],), 0, LENMAX)
        st = st.copy()
        st.assume(ge(st.norm(e.name[1].len) - 1, n))
        return self.ret(st, n)


    m_string_from_utf8 = _from_utf8
    m_p_str_from_utf8 = _from_utf8
    m_p_str_converts_from_utf8 = _from_utf8

    def _utf8_lossy(self, st, c, a, dty, loc):
        v = self.seqof(st, self.flat(st, a[0]) if isinstance(a[0], Ptr) else a[0])
        self.log(st, Ev("utf8-unchecked", None, True, self.where(loc), seq=v, fn=c["name"]))
        if c["name"] == "from_utf8_lossy":
            vs = self.ip.t(dty).get("variants") or []
            if len(vs) != 2 or not isinstance(a[0], Ptr):
                return self.ret(st, Opq(dty, ("lossy", v)))
            own = self.ip.sym(vs[1]["fields"][0]["ty"], ("lossy", v))
            return self.fork(st, self.utf8(st, v), lambda z: self.ret(z, Enum(dty, 0, [a[0]])), lambda z: self.ret(z, Enum(dty, 1, [own])))
        return self.ret(st, a[0])

    m_string_from_utf8_unchecked = _utf8_lossy
    m_string_from_utf8_lossy = _utf8_lossy
    m_p_str_from_utf8_unchecked = _utf8_lossy

    # ------------------------------------------------------------ iterators
    def iterof(self, st, v):
        """abstract iterator for an IntoIterator argument"""
        if isinstance(v, Struct) and v.ty.startswith("$"):
            return v
        if isinstance(v, Seq):
            return Struct("$into", [v, ZERO, v.len])
        if isinstance(v, Ptr):
            x = self.ip.load(st, v.cell, v.path)
            if isinstance(x, Struct) and x.ty.startswith("$"):
                return x
            if isinstance(x, MapV):
                return Struct("$map", [Ptr(v.cell, v.path), ZERO, self.maplen(st, x), "kv"])
            p = self.view(st, v)
            return Struct("$slice", [p, ZERO, p.rng[1]])
        return v

    def _into_iter(self, st, c, a, dty, loc):
        return self.ret(st, self.iterof(st, a[0]))

    m_seq_into_iter = _into_iter
    m_seq_iter = _into_iter
    m_seq_iter_mut = _into_iter
    m_map_into_iter = _into_iter

    def m_seq_bytes(self, st, c, a, dty, loc):
        v = self.seqof(st, self.flat(st, a[0]))
        return self.ret(st, Struct("$into", [v, ZERO, v.len]))

    def m_vec_drain(self, st, c, a, dty, loc):
        v = self.seqof(st, a[0])
        lo, hi = self.rangeof(st, a[1], st.norm(v.len))
        if lo.const == 0 and st.same(hi, v.len):
            self.setseq(st, a[0], Seq(v.ety, []))
            return self.ret(st, Struct("$into", [v, ZERO, v.len]))
        raise GiveUp("drain of a part")

    def _chunks(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        return self.guard(st, ge(a[1], ONE), "chunk-size", loc,
                          lambda s: self.ret(s, Struct("$chunks", [p, ZERO, p.rng[1], a[1], C(int("exact" in c["name"]))])))

    m_seq_chunks = _chunks
    m_seq_chunks_mut = _chunks
    m_seq_chunks_exact = _chunks
    m_seq_chunks_exact_mut = _chunks

    def step(self, st, it, back=False):
        """[(state, item or None, new iterator)]"""
        k = it.ty
        f = it.fields
        out = []
        if k in ("$slice", "$into", "$map"):
            pos, end = f[1], f[2]
            for s in self.ip.branch(st, lt(pos, end)):
                p = s.norm(end - 1) if back else s.norm(pos)
                if k == "$slice":
                    x = Ptr(f[0].cell, f[0].path + (("ix", s.norm(f[0].rng[0] + p)),))
                elif k == "$into":
                    x = self.ip.seqget(s, f[0], p)
                else:
                    x = self.mapitem(s, f[0], p, f[3])
                nf = list(f)
                if back:
                    nf[2] = p
                else:
                    nf[1] = p + 1
                out.append((s, x, Struct(k, nf)))
            for s in self.ip.branch(st, ge(pos, end)):
                out.append((s, None, it))
            return out
        if k == "$chunks" and not back:
            p, pos, end, n, exact = f
            m = end - pos
            for s in self.ip.branch(st, ge(m, n)):
                out.append((s, Ptr(p.cell, p.path, (s.norm(p.rng[0] + pos), n)),
                            Struct(k, [p, s.norm(pos + n), end, n, exact])))
            for s in self.ip.branch(st, lt(m, n)):
                if exact.const:
                    out.append((s, None, it))
                    continue
                for s2 in self.ip.branch(s, ge(m, ONE)):
                    out.append((s2, Ptr(p.cell, p.path, (s2.norm(p.rng[0] + pos), s2.norm(m))),
                                Struct(k, [p, end, end, n, exact])))
                for s2 in self.ip.branch(s, ge(ZERO, m)):
                    out.append((s2, None, it))
            return out
        h = k.split("<")[0]
        if h == "std::ops::Range" and isinstance(it, Struct) and self.ip.intinfo(self.ip.t(k)["args"][0]):
            for s in self.ip.branch(st, lt(f[0], f[1])):
                p = s.norm(f[1] - 1) if back else s.norm(f[0])
                out.append((s, p, Struct(k, [f[0], p] if back else [s.norm(f[0] + 1), f[1]], it.fn)))
            for s in self.ip.branch(st, ge(f[0], f[1])):
                out.append((s, None, it))
            return out
        if h.startswith("std::iter::") and isinstance(it, Struct):
            return self.adapter(st, it, h.split("::")[-1], back)
        raise GiveUp("iterator %r" % (it,))

    def adapter(self, st, it, h, back):
        """one step of a std iterator adapter"""
        f = it.fields
        if h == "Rev":
            return [(s, x, Struct(it.ty, [ni], it.fn)) for s, x, ni in self.step(st, f[0], not back)]
        if h in ("Copied", "Cloned"):
            out = []
            for s, x, ni in self.step(st, f[0], back):
                if isinstance(x, Ptr):
                    x = self.ip.deref(s, x)
                    if not isinstance(x, (L, bool, Cond)) and h == "Cloned":
                        raise GiveUp("cloned iterator")
                out.append((s, x, Struct(it.ty, [ni], it.fn)))
            return out
        if h == "Enumerate" and not back:
            return [(s, x if x is None or x is SKIP or isinstance(x, _out()) else Struct("()", [f[1], x]),
                     Struct(it.ty, [ni, s.norm(f[1] + 1) if x is not None and x is not SKIP else f[1]], it.fn)) for s, x, ni in self.step(st, f[0])]
        if h == "Map":
            out = []
            for s, x, ni in self.step(st, f[0], back):
                if x is None or x is SKIP or isinstance(x, _out()):
                    out.append((s, x, Struct(it.ty, [ni, f[1]], it.fn)))
                    continue
                if not (isinstance(f[1], FnV) or isinstance(f[1], Struct) and f[1].fn):
                    raise GiveUp("unknown closure")
                s = s.copy()
                env = f[1]
                if isinstance(env, Struct):
                    env = Ptr(self.ip.newcell(s, env, env.ty))
                for o in self.ip.call_value(env, [x], s, "()", None):
                    nf = f[1]
                    if isinstance(env, Ptr):
                        nf = o.st.cells.get(env.cell, nf)
                    out.append((o.st, o if o.kind == "panic" else o.val, Struct(it.ty, [ni, nf], it.fn)))
            return out
        if h in ("Filter", "FilterMap"):
            out = []
            for s, x, ni in self.step(st, f[0], back):
                if x is None or x is SKIP or isinstance(x, _out()):
                    out.append((s, x, Struct(it.ty, [ni, f[1]], it.fn)))
                    continue
                if not (isinstance(f[1], FnV) or isinstance(f[1], Struct) and f[1].fn):
                    raise GiveUp("unknown closure")
                s = s.copy()
                env, arg, cell = f[1], x, None
                if isinstance(env, Struct):
                    env = Ptr(self.ip.newcell(s, env, env.ty))
                if h == "Filter":
                    cell = ("g", "item", uid())
                    s.cells[cell] = x
                    self.ip.ctype[cell] = "&"
                    arg = Ptr(cell)
                for o in self.ip.call_value(env, [arg], s, "bool" if h == "Filter" else "()", None):
                    nf = f[1]
                    if isinstance(env, Ptr):
                        nf = o.st.cells.get(env.cell, nf)
                    ni2 = Struct(it.ty, [ni, nf], it.fn)
                    if o.kind == "panic":
                        out.append((o.st, o, ni2))
                        continue
                    v = o.val
                    if h == "FilterMap":
                        if not isinstance(v, Enum):
                            raise GiveUp("filter_map of %r" % (v,))
                        out.append((o.st, v.fields[0] if v.var == 1 else SKIP, ni2))
                        continue
                    c = v if isinstance(v, (bool, Cond)) else ne(v, ZERO)
                    for q, y in ((c, x), (negc(c), SKIP)):
                        for z in self.ip.branch(o.st, q):
                            z = z.copy()
                            z.cells.pop(cell, None)
                            out.append((z, y, ni2))
            return out
        if h == "GenericShunt" and not back and isinstance(f[1], Ptr):
            # (behind collect into a Result or an Option: the first failure is put aside and ends the sequence)
            out = []
            for s, x, ni in self.step(st, f[0]):
                if x is None or x is SKIP or isinstance(x, _out()):
                    out.append((s, x, Struct(it.ty, [ni, f[1]], it.fn)))
                    continue
                if not isinstance(x, Enum) or not x.ty.startswith(("std::result::Result", "std::option::Option")):
                    raise GiveUp("collected %r" % (x,))
                ni = Struct(it.ty, [ni, f[1]], it.fn)
                if x.var == (0 if x.ty.startswith("std::result") else 1):
                    out.append((s, x.fields[0], ni))
                    continue
                s = s.copy()
                r = self.ip.load(s, f[1].cell, f[1].path)
                if not isinstance(r, Enum):
                    raise GiveUp("collected %r" % (r,))
                ty = self.ip.t(r.ty)["args"][0]
                self.ip.store(s, f[1].cell, f[1].path, Enum(r.ty, 1, [Enum(ty, x.var, list(x.fields))]))
                out.append((s, None, ni))
            return out
        raise GiveUp("iterator adapter %s" % h)

    def m_it_take(self, st, c, a, dty, loc):
        """take/skip of an iterator over known items: the same iterator with other ends"""
        r = self.ends(st, a[0], a[1], c["name"])
        if r is None:
            return None
        out = []
        for s, it in r:
            out += self.ret(s, it)
        return out

    def ends(self, st, it, n, what):
        if not isinstance(it, Struct):
            return None
        f = list(it.fields)
        if it.ty in ("$slice", "$into", "$map") or it.ty == "$chunks" and (n.const is not None or f[3].const is not None):
            w = n if it.ty != "$chunks" else mkprod(n, f[3])
            out = []
            for s in self.ip.branch(st, ge(f[2] - f[1], w)):
                g = list(f)
                if what == "take":
                    g[2] = s.norm(f[1] + w)
                elif what == "skip":
                    g[1] = s.norm(f[1] + w)
                else:
                    g[1] = s.norm(f[2] - w)
                out.append((s, Struct(it.ty, g)))
            for s in self.ip.branch(st, lt(f[2] - f[1], w)):
                g = list(f)
                if what == "skip":
                    g[1] = f[2]
                out.append((s, Struct(it.ty, g)))
            return out
        h = it.ty.split("<")[0]
        if h in ("std::iter::Copied", "std::iter::Cloned") or what == "take" and h in ("std::iter::Map", "std::iter::Enumerate"):
            r = self.ends(st, f[0], n, what)
        elif h == "std::iter::Rev" and what == "take" and isinstance(f[0], Struct) and f[0].ty in ("$slice", "$into", "$map"):
            r = self.ends(st, f[0], n, "last")
        else:
            return None
        return r and [(s, Struct(it.ty, [x] + f[1:], it.fn)) for s, x in r]

    def _cutshort(self, r, st, c, a, dty, loc):
        """a method of Take/Skip: ours when take/skip has been folded into the iterator below"""
        it = a[0]
        if isinstance(it, Ptr):
            it = self.ip.load(st, it.cell, it.path)
        if isinstance(it, Ptr):
            it = self.ip.load(st, it.cell, it.path)
        if not isinstance(it, Struct) or it.ty.startswith(("std::iter::Take<", "std::iter::Skip<")):
            return None
        return r(st, c, a, dty, loc)

    def _next(self, st, c, a, dty, loc, back=False):
        p = a[0]
        it = self.ip.load(st, p.cell, p.path)
        if isinstance(it, Opq) or not isinstance(it, Struct) or not it.ty.startswith(("$", "std::iter::")):
            raise GiveUp("iterator %r" % (it,))
        out = []
        for s, x, ni in self.step(st, it, back):
            if x is SKIP:
                raise GiveUp("an iterator that skips items")
            if isinstance(x, _out()):
                out.append(x)
                continue
            s = s.copy()
            self.ip.store(s, p.cell, p.path, ni)
            out += self.ret(s, opt_none(dty) if x is None else opt_some(dty, x))
        return out

    m_it_next = _next

    def m_it_next_back(self, st, c, a, dty, loc):
        return self._next(st, c, a, dty, loc, True)

    def m_it___iterator_get_unchecked(self, st, c, a, dty, loc):
        """random access used by Zip: element i from the front, the iterator staying where it is"""
        it = self.ip.load(st, a[0].cell, a[0].path)
        if not isinstance(it, Struct) or it.ty not in ("$slice", "$into", "$chunks"):
            raise GiveUp("random access to %r" % (it,))
        st = st.copy()
        f = it.fields
        if it.ty == "$chunks":
            p, pos, end, n, exact = f
            off = st.norm(pos + mkprod(a[1], n))
            at = lambda m: lambda s: self.ret(s, Ptr(p.cell, p.path, (s.norm(p.rng[0] + off), s.norm(m))))
            if exact.const:
                return at(n)(st)
            return self.fork(st, ge(end - off, n), at(n), at(end - off))
        if it.ty == "$slice":
            return self.ret(st, Ptr(f[0].cell, f[0].path + (("ix", st.norm(f[0].rng[0] + f[1] + a[1])),)))
        return self.ret(st, self.ip.seqget(st, f[0], st.norm(f[1] + a[1])))

    def m_it_len(self, st, c, a, dty, loc):
        it = self.ip.load(st, a[0].cell, a[0].path)
        if it.ty in ("$slice", "$into", "$map"):
            return self.ret(st, st.norm(it.fields[2] - it.fields[1]))
        raise GiveUp("len of %s" % it.ty)

    def m_it_count(self, st, c, a, dty, loc):
        it = a[0]
        if it.ty in ("$slice", "$into", "$map"):
            return self.ret(st, st.norm(it.fields[2] - it.fields[1]))
        raise GiveUp("count of %s" % it.ty)

    def m_it_size_hint(self, st, c, a, dty, loc):
        it = self.ip.load(st, a[0].cell, a[0].path)
        n = st.norm(it.fields[2] - it.fields[1])
        f = self.ip.t(dty)["fields"]
        return self.ret(st, Struct(dty, [n, opt_some(f[1], n)]))

    def m_it_by_ref(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    def m_it_into_iter(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    def _fold(self, st, c, a, dty, loc):
        """fold / for_each / try_fold family as an explicit loop over the closure"""
        import loops
        it, acc, f = a[0], a[1], a[2]
        return self.loopcall(st, it, acc, lambda s, acc, x: self.ip.call_value(f, [acc, x], s, dty, loc), dty, loc, f)

    m_it_fold = _fold

    def loopcall(self, st, it, acc, body, dty, loc, keep=None):
        """acc' = body(acc, item) over the iterator"""
        import loops
        from interp import Out
        ip = self.ip
        st = st.copy()
        ic, ac, kc = (("g", t, uid()) for t in ("it", "acc", "keep"))
        for cc, vv, tt in ((ic, it, "$iter"), (ac, acc, dty), (kc, keep, "$keep")):
            if vv is not None:
                st.cells[cc] = vv
                ip.ctype[cc] = tt

        def step(s):
            res = []
            for s2, x, ni in self.step(s, s.cells[ic]):
                s2 = s2.copy()
                s2.cells[ic] = ni
                if x is None:
                    res.append(("exit", s2, None))
                    continue
                if x is SKIP:
                    res.append(("back", s2, None))
                    continue
                if isinstance(x, Out):
                    res.append(("panic", x.st, x.info))
                    continue
                for o in body(s2, s2.cells[ac], x):
                    if o.kind == "panic":
                        res.append(("panic", o.st, o.info))
                    else:
                        z = o.st.copy()
                        z.cells[ac] = o.val
                        res.append(("back", z, None))
            return res
        out = []
        from interp import Out
        for kind, s, x in loops.generic(ip, st, lambda s: ip.splitting(s, step), ("fold", loc and tuple(loc)), None):
            if kind == "exit":
                s = s.copy()
                v = s.cells.pop(ac)
                s.cells.pop(ic)
                s.cells.pop(kc, None)
                out.append(Out("ret", s, v))
            else:
                out.append(Out("panic", s, None, x))
        return out

    def until(self, st, itp, acc, body, done, loc, accty="()"):
        """body(state, acc, item) -> [(state, 'go'|'stop'|Out(panic), acc)]; done(state, acc, stopped) -> outcomes"""
        import loops
        from interp import Out
        ip = self.ip
        st = st.copy()
        own = not isinstance(itp, Ptr)
        if own:
            itp0 = itp
            itp = Ptr(("g", "it", uid()))
            st.cells[itp.cell] = itp0
            ip.ctype[itp.cell] = "$iter"
        ac = ("g", "acc", uid())
        st.cells[ac] = acc
        ip.ctype[ac] = accty

        def step(s):
            it = ip.load(s, itp.cell, itp.path)
            if not isinstance(it, Struct) or not it.ty.startswith("$"):
                raise GiveUp("iterator %r" % (it,))
            res = []
            for s2, x, ni in self.step(s, it):
                s2 = s2.copy()
                ip.store(s2, itp.cell, itp.path, ni)
                if x is None:
                    res.append(("exit", s2, False))
                    continue
                if x is SKIP:
                    res.append(("back", s2, None))
                    continue
                if isinstance(x, Out):
                    res.append(("panic", x.st, x.info))
                    continue
                for z, what, v in body(s2, s2.cells[ac], x):
                    if isinstance(what, Out):
                        res.append(("panic", z, what.info))
                        continue
                    z = z.copy()
                    z.cells[ac] = v
                    res.append(("back", z, None) if what == "go" else ("exit", z, True))
            return res
        out = []
        for kind, s, x in loops.generic(ip, st, lambda s: ip.splitting(s, step), ("until", loc and tuple(loc)), None):
            if kind == "exit":
                s = s.copy()
                v = s.cells.pop(ac)
                if own:
                    s.cells.pop(itp.cell)
                out += done(s, v, x)
            else:
                out.append(Out("panic", s, None, x))
        return out

    def asked(self, f, s, args, loc, yes, no):
        """outcomes of a predicate call as loop results"""
        out = []
        for o in self.ip.call_value(f, args, s, "bool", loc):
            if o.kind == "panic":
                out.append((o.st, o, None))
                continue
            v = o.val
            c = v if isinstance(v, (bool, Cond)) else ne(v, ZERO)
            for z in self.ip.branch(o.st, c):
                out.append((z,) + yes)
            for z in self.ip.branch(o.st, negc(c)):
                out.append((z,) + no)
        return out

    def m_it_find(self, st, c, a, dty, loc):
        f = a[1]
        none = opt_none(dty)

        def body(s, acc, x):
            s = s.copy()
            cell = ("g", "item", uid())
            s.cells[cell] = x
            self.ip.ctype[cell] = "&"
            out = []
            for z, w, v in self.asked(f, s, [Ptr(cell)], loc, ("stop", opt_some(dty, x)), ("go", none)):
                z = z.copy()
                z.cells.pop(cell, None)
                out.append((z, w, v))
            return out
        return self.until(st, a[0], none, body, lambda s, v, stopped: self.ret(s, v if stopped else none), loc, dty)

    def m_it_try_fold(self, st, c, a, dty, loc):
        """the short-circuiting fold that most of Iterator is made of"""
        from interp import Out
        t = (dty or "").split("<")[0].split("::")[-1]
        go = {"Option": 1, "Result": 0, "ControlFlow": 0}.get(t)
        if go is None or not isinstance(a[0], Ptr):
            return None
        it = self.ip.load(st, a[0].cell, a[0].path)
        if not isinstance(it, Struct) or not it.ty.startswith("$"):
            return None
        st = st.copy()
        fc = ("g", "fn", uid())
        st.cells[fc] = a[2]
        self.ip.ctype[fc] = "$fn"
        f = Ptr(fc) if isinstance(a[2], Struct) else a[2]

        def body(s, acc, x):
            out = []
            for o in self.ip.call_value(f, [acc, x], s, dty, loc):
                if o.kind == "panic":
                    out.append((o.st, o, None))
                elif not isinstance(o.val, Enum):
                    raise GiveUp("try_fold of %r" % (o.val,))
                elif o.val.var == go:
                    out.append((o.st, "go", o.val.fields[0]))
                else:
                    out.append((o.st, "stop", o.val))
            return out

        def done(s, v, stopped):
            s = s.copy()
            s.cells.pop(fc, None)
            return self.ret(s, v if stopped else Enum(dty, go, [v]))
        return self.until(st, a[0], a[1], body, done, loc, "()")

    def m_it_any(self, st, c, a, dty, loc):
        return self.until(st, a[0], ZERO, lambda s, acc, x: self.asked(a[1], s, [x], loc, ("stop", ZERO), ("go", ZERO)),
                          lambda s, v, stopped: self.ret(s, stopped), loc, "usize")

    def m_it_all(self, st, c, a, dty, loc):
        return self.until(st, a[0], ZERO, lambda s, acc, x: self.asked(a[1], s, [x], loc, ("go", ZERO), ("stop", ZERO)),
                          lambda s, v, stopped: self.ret(s, not stopped), loc, "usize")

    def m_it_position(self, st, c, a, dty, loc):
        return self.until(st, a[0], ZERO, lambda s, acc, x: self.asked(a[1], s, [x], loc, ("stop", acc), ("go", acc + 1)),
                          lambda s, v, stopped: self.ret(s, opt_some(dty, v) if stopped else opt_none(dty)), loc, "usize")

    def m_it_nth(self, st, c, a, dty, loc):
        it = self.ip.load(st, a[0].cell, a[0].path)
        if not isinstance(it, Struct) or it.ty not in ("$slice", "$into", "$map"):
            raise GiveUp("nth of %r" % (it,))
        out = []
        for s in self.ip.branch(st, lt(it.fields[1] + a[1], it.fields[2])):
            s = s.copy()
            f = list(it.fields)
            f[1] = s.norm(f[1] + a[1])
            self.ip.store(s, a[0].cell, a[0].path, Struct(it.ty, f))
            out += self._next(s, c, a[:1], dty, loc)
        for s in self.ip.branch(st, ge(it.fields[1] + a[1], it.fields[2])):
            s = s.copy()
            f = list(it.fields)
            f[1] = f[2]
            self.ip.store(s, a[0].cell, a[0].path, Struct(it.ty, f))
            out += self.ret(s, opt_none(dty))
        return out

    def m_it_last(self, st, c, a, dty, loc):
        out = []
        for s, x, ni in self.step(st, a[0], True):
            if x is SKIP:
                raise GiveUp("an iterator that skips items")
            out += self.ret(s, opt_none(dty) if x is None else opt_some(dty, x))
        return out

    def m_it_for_each(self, st, c, a, dty, loc):
        return self.loopcall(st, a[0], Struct("()", []),
                             lambda s, acc, x: self.ip.call_value(a[1], [x], s, "()", loc), "()", loc, a[1])

    def m_it_sum(self, st, c, a, dty, loc):
        ii = self.ip.intinfo(dty)

        def body(s, acc, x):
            if isinstance(x, Ptr):
                x = self.ip.deref(s, x)
            r = acc + x
            lo, hi = self.ip.trange(dty)
            return self.guard(s, conj([ge(r, C(lo)), ge(C(hi), r)]), "overflow:Add", loc, lambda z: self.ret(z, z.norm(r)))
        if not ii:
            raise GiveUp("sum")
        return self.loopcall(st, a[0], ZERO, body, dty, loc)

    def m_vec_from_iter(self, st, c, a, dty, loc):
        it = a[0]
        if isinstance(it, Ptr) or isinstance(it, Seq):
            raise GiveUp("from_iter of a collection")
        return self.m_it_collect(st, c, a, dty, loc)

    def m_it_collect(self, st, c, a, dty, loc):
        it = a[0]
        if not self.ip.is_seq(dty):
            raise GiveUp("collect into %s" % dty)
        ety = self.ip.ety(dty)
        if it.ty == "$into":
            return self.ret(st, self.ip.seqslice(st, it.fields[0], it.fields[1], it.fields[2] - it.fields[1]))
        return self.loopcall(st, it, Seq(ety, []),
                             lambda s, acc, x: self.ret(s, Seq(ety, acc.segs + ((ONE, "e", x),))), dty, loc)

    # ------------------------------------------------------------ maps
    def mapmax(self):
        return 1 << 28 if self.ip.small else ISIZE // 32

    def tagmax(self):
        return 1 << 32 if self.ip.small else 1 << 62

    def maplen(self, st, m):
        n = ZERO
        if m.base is not None:
            n = n + A(atom("fn", ("maplen", m.base), 0, self.mapmax()))
        if m.ins:
            if m.base is not None and st.norm(n) == ZERO:
                m = MapV(m.ty, None, m.ins)
            if m.base is None and len(m.ins) == 1 and m.ins[0][0] == "e":
                return ONE
            r = A(atom("fn", ("maplen", m), 0, self.mapmax()))
            return r
        return st.norm(n)

    def mapof(self, st, p):
        v = self.ip.load(st, p.cell, p.path) if isinstance(p, Ptr) else p
        if isinstance(v, Ptr):
            return self.mapof(st, v)
        if isinstance(v, Opq):
            v = MapV(v.ty, v.name)
        if not isinstance(v, MapV):
            raise GiveUp("map expected %r" % (v,))
        return self.wholecopy(st, v) or v

    def wholecopy(self, st, m):
        """the opaque map that m has become a copy of: all its entries, inserted in some order"""
        if m.base is not None or not m.ins:
            return None
        if m.ins[0][0] == "star":
            if len(m.ins) > 1 or len(m.ins[0][3]) != 1 or m.ins[0][3][0][0] != "e":
                return None
            return self._copy(st, m, m.ins[0][1], m.ins[0][2], *m.ins[0][3][0][1:])
        seen, r = set(), None
        for e in m.ins:
            if e[0] != "e":
                return None
            r = self._copy(st, m, C(len(m.ins)), seen, e[1], e[2])
            if r is None:
                return None
        return r if seen == set(range(len(m.ins))) else None

    def _copy(self, st, m, n, bv, k, v):
        if not (isinstance(k, Seq) and len(k.segs) == 1 and k.segs[0][1] == "o" and isinstance(k.segs[0][2], tuple) and k.segs[0][2][0] == "s"):
            return None
        kn = k.segs[0][2][1]
        if not (isinstance(kn, tuple) and len(kn) == 3 and kn[0] == "key" and isinstance(kn[2], L)):
            return None
        name, i = kn[1], kn[2]
        full = A(atom("fn", ("maplen", name), 0, self.mapmax()))
        if not st.same(st.norm(n), st.norm(full)):
            return None
        if isinstance(bv, set):
            if i.const is None:
                return None
            bv.add(i.const)
        elif i != A(bv):
            a = i.t[0][0] if len(i.t) == 1 and i.c == 0 and i.t[0][1] == 1 else None
            if a is None or a.kind != "fn" or a.args[0] != "perm" or not st.same(a.args[2], full) or a.args[3] != A(bv):
                return None
        import loops
        kt, vt = self.kvtypes(m)
        for x, ty, nm in ((k, kt, "key"), (v, vt, "mapval")):
            y = self.ip.sym(ty, (nm, name, i))
            if x != y and not loops.samev(st, loops.normv(st, x), loops.normv(st, y)):
                return None
        return MapV(m.ty, name)

    def kvtypes(self, m):
        i = self.ip.t(m.ty)
        return i["args"][0], i["args"][1]

    def mapitem(self, st, p, idx, what):
        m = self.mapof(st, p)
        if m.ins or m.base is None:
            raise GiveUp("iteration over a modified map")
        kt, vt = self.kvtypes(m)
        if "BTreeMap" in self.ip.adt(m.ty):
            idx = A(atom("fn", ("perm", ("sorted", ("map",), m.base), self.maplen(st, m), idx), 0, ISIZE))
        kc = ("x", ("key", m.base, idx))
        vc = ("x", ("mapval", m.base, idx))
        self.ip.ctype.setdefault(kc, kt)
        self.ip.ctype.setdefault(vc, vt)
        if what == "k":
            return Ptr(kc)
        if what == "v":
            return Ptr(vc)
        return Struct("()", [Ptr(kc), Ptr(vc)])

    def m_map_new(self, st, c, a, dty, loc):
        return self.ret(st, MapV(dty, None))

    m_map_default = m_map_new
    m_map_with_capacity = m_map_new

    def m_map_len(self, st, c, a, dty, loc):
        return self.ret(st, st.norm(self.maplen(st, self.mapof(st, a[0]))))

    def m_map_is_empty(self, st, c, a, dty, loc):
        return self.ret(st, eq(self.maplen(st, self.mapof(st, a[0])), ZERO))

    def m_map_clear(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        self.ip.store(st, p.cell, p.path, MapV(m.ty, None))
        return self.unit(st)

    def m_map_reserve(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])

        def go(s):
            self.alloc(s, s.norm(a[1]), "mapentry", loc)
            return self.unit(s)
        return self.guard(st, ge(C(ISIZE // 64), a[1]), "capacity", loc, go)

    def _mapiter(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        w = {"keys": "k", "values": "v", "values_mut": "v"}.get(c["name"], "kv")
        return self.ret(st, Struct("$map", [p, ZERO, self.maplen(st, m), w]))

    m_map_iter = _mapiter
    m_map_keys = _mapiter
    m_map_values = _mapiter
    m_map_iter_mut = _mapiter

    def mapkey(self, st, k):
        """normal form of a key argument: L or sequence"""
        while isinstance(k, Ptr):
            if k.rng is not None:
                return self.ip.ptrseq(st, k)
            v = self.ip.load(st, k.cell, k.path)
            if isinstance(v, Opq) and self.ip.is_seq(v.ty):
                v = self.ip.sym(v.ty, v.name)
            k = v
        return st.norm(k) if isinstance(k, L) else k

    def keyindex(self, st, m, k):
        """index i such that k is key i of the opaque base, or None"""
        if isinstance(k, Seq) and len(k.segs) == 1 and k.segs[0][1] == "o":
            nm = k.segs[0][2]
            if isinstance(nm, tuple) and nm[0] == "s" and isinstance(nm[1], tuple) and nm[1][0] == "key" and \
                    nm[1][1] == m.base and k.segs[0][3] == ZERO:
                return nm[1][2]
        return None

    def maplook(self, st, m, k, vt):
        """[(state, cell holding the value of key k, or None)]"""
        out, s = [], st
        for n, e in reversed(list(enumerate(m.ins))):            # newest entry first
            if e[0] == "r":
                return out + self._kept(s, MapV(m.ty, m.base, m.ins[:n]), e, k, vt)
            if e[0] not in ("e", "d"):
                raise GiveUp("lookup in summarised map")
            cond = eq(k, e[1]) if isinstance(k, L) and isinstance(e[1], L) else None
            if cond is None:
                if isinstance(k, Seq) and isinstance(e[1], Seq):
                    cond = self.seqeq(s, k, e[1])
                if cond is None:
                    raise GiveUp("map key comparison")
            for s2 in self.ip.branch(s, cond):
                s2 = s2.copy()
                out.append((s2, self.ip.newcell(s2, e[2], vt, "mapv") if e[0] == "e" else None))
            r = self.ip.branch(s, negc(cond))
            if not r:
                return out
            s = r[0]
        if m.base is None:
            return out + [(s, None)]
        i = self.keyindex(s, m, k)
        if i is not None:
            cell = ("x", ("mapval", m.base, i))
            self.ip.ctype.setdefault(cell, vt)
            return out + [(s, cell)]
        cond = mkc("ne", A(atom("fn", ("has", m.base, k), 0, 1)))
        cell = ("x", ("mapget", m.base, k))
        self.ip.ctype.setdefault(cell, vt)
        out += [(x, cell) for x in self.ip.branch(s, cond)]
        return out + [(x, None) for x in self.ip.branch(s, negc(cond))]

    def _kept(self, st, m, e, k, vt):
        """lookup of k in m after retain(e[1])"""
        out = []
        for s, cell in self.maplook(st, m, k, vt):
            if cell is None:
                out.append((s, None))
                continue
            s = s.copy()
            kc = self.ip.newcell(s, k, self.kvtypes(m)[0], "mapk")
            before = [self.ip.load(s, p.cell, p.path) for p in e[1].fields if isinstance(p, Ptr)]
            v0 = self.ip.load(s, cell, ())
            for z, w, v in self.asked(e[1], s, [Ptr(kc), Ptr(cell)], e[2], ("keep", 1), ("drop", 0)):
                if w not in ("keep", "drop"):
                    raise GiveUp("retain with a closure that can panic")
                if before != [self.ip.load(z, p.cell, p.path) for p in e[1].fields if isinstance(p, Ptr)] or \
                        str(v0) != str(self.ip.load(z, cell, ())):
                    raise GiveUp("retain with a closure that changes things")
                out.append((z, cell if w == "keep" else None))
        return out

    def m_map_retain(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        f = a[1]
        if not (isinstance(f, Struct) and f.fn):
            raise GiveUp("retain")
        st = st.copy()

        def keep(v, d=0):
            if not isinstance(v, Ptr) or v.rng is not None or v.cell[0] == "x" or d > 3:
                return v
            w = self.ip.load(st, v.cell, v.path)
            return Ptr(self.ip.newcell(st, keep(w, d + 1), self.ip.ctype.get(v.cell, "&"), "kept"))
        g = Struct(f.ty, [keep(x) for x in f.fields])
        g.fn = f.fn
        self.ip.store(st, p.cell, p.path, MapV(m.ty, m.base, m.ins + (("r", g, loc),)))
        return self.unit(st)

    def m_map_get(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        k = self.mapkey(st, a[1])
        kt, vt = self.kvtypes(m)
        contains = c["name"] == "contains_key"
        if m.ins and c["name"] == "get_mut":
            raise GiveUp("mutable lookup in modified map")
        out = []
        for s, cell in self.maplook(st, m, k, vt):
            if contains:
                out += self.ret(s, cell is not None)
            else:
                out += self.ret(s, opt_none(dty) if cell is None else opt_some(dty, Ptr(cell)))
        return out

    def m_map_index(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        out = []
        for s, cell in self.maplook(st, m, self.mapkey(st, a[1]), self.kvtypes(m)[1]):
            out += [self.panic(s, "no entry found for key", loc)] if cell is None else self.ret(s, Ptr(cell))
        return out

    m_map_contains_key = m_map_get
    m_map_get_mut = m_map_get

    def m_map_insert(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        k = self.mapkey(st, a[1])
        new = MapV(m.ty, m.base, m.ins + (("e", k, a[2]),))
        if m.base is None and not m.ins:
            self.ip.store(st, p.cell, p.path, new)
            return self.ret(st, opt_none(dty))
        if isinstance(k, L) and all(e[0] in ("e", "d") and isinstance(e[1], L) for e in m.ins):
            return self._replaced(st, m, p, k, dty, new)
        if not m.ins:
            return self._replaced(st, m, p, k, dty, new)
        self.ip.store(st, p.cell, p.path, new)
        # previous value: unknown
        cond = mkc("ne", A(atom("fn", ("has", m, k), 0, 1)))
        old = self.ip.sym(self.ip.t(dty)["variants"][1]["fields"][0]["ty"], ("mapold", m, k))
        return self.fork(st, cond, lambda s: self.ret(s, opt_some(dty, old)), lambda s: self.ret(s, opt_none(dty)))

    def _replaced(self, st, m, p, k, dty, new):
        """the previous value of k, the map becoming `new`"""
        out = []
        for s, cell in self.maplook(st, m, k, self.kvtypes(m)[1]):
            s = s.copy()
            r = opt_none(dty) if cell is None else opt_some(dty, self.ip.load(s, cell, ()))
            self.ip.store(s, p.cell, p.path, new)
            out += self.ret(s, r)
        return out

    def m_map_entry(self, st, c, a, dty, loc):
        """the entry of a key: occupied or vacant, decided here"""
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        k = self.mapkey(st, a[1])
        vs = self.ip.t(dty)["variants"]
        out = []
        for s, cell in self.maplook(st, m, k, self.kvtypes(m)[1]):
            s = s.copy()
            var = [i for i, x in enumerate(vs) if x["name"] == ("Vacant" if cell is None else "Occupied")][0]
            out += self.ret(s, Enum(dty, var, [Struct("$entry", [p, k, cell and Ptr(cell)])]))
        return out

    def _entry(self, st, x):
        if isinstance(x, Ptr):
            x = self.ip.load(st, x.cell, x.path)
        if isinstance(x, Enum):
            x = x.fields[0]
        if not isinstance(x, Struct) or x.ty != "$entry":
            raise GiveUp("map entry %r" % (x,))
        return x.fields

    def _entryput(self, st, e, v, vt):
        """store v under the entry's key; a reference to it that may be read"""
        m = self.mapof(st, e[0])
        self.ip.store(st, e[0].cell, e[0].path, MapV(m.ty, m.base, m.ins + (("e", e[1], v),)))
        cell = ("ro", "entry", uid())
        st.cells[cell] = v
        self.ip.ctype[cell] = vt
        return Ptr(cell)

    def _entryref(self, e):
        if e[2].cell[0] in ("x", "ro"):
            return e[2]
        raise GiveUp("reference to a map entry")

    def m_Entry_or_insert(self, st, c, a, dty, loc):
        e = self._entry(st, a[0])
        if e[2] is not None:
            return self.ret(st, self._entryref(e))
        st = st.copy()
        return self.ret(st, self._entryput(st, e, a[1], self.kvtypes(self.mapof(st, e[0]))[1]))

    def m_Entry_or_insert_with(self, st, c, a, dty, loc):
        e = self._entry(st, a[0])
        if e[2] is not None:
            return self.ret(st, self._entryref(e))
        out = []
        for o in self.ip.call_value(a[1], [], st, "()", loc):
            if o.kind == "panic":
                out.append(o)
                continue
            z = o.st.copy()
            out += self.ret(z, self._entryput(z, e, o.val, self.kvtypes(self.mapof(z, e[0]))[1]))
        return out

    def m_VacantEntry_insert(self, st, c, a, dty, loc):
        return self.m_Entry_or_insert(st, c, a, dty, loc)

    def m_OccupiedEntry_insert(self, st, c, a, dty, loc):
        e = self._entry(st, a[0])
        st = st.copy()
        old = self.ip.load(st, e[2].cell, e[2].path)
        self._entryput(st, e, a[1], self.kvtypes(self.mapof(st, e[0]))[1])
        return self.ret(st, old)

    def m_OccupiedEntry_get(self, st, c, a, dty, loc):
        return self.ret(st, self._entryref(self._entry(st, a[0])))

    def m_OccupiedEntry_remove(self, st, c, a, dty, loc):
        e = self._entry(st, a[0])
        st = st.copy()
        old = self.ip.load(st, e[2].cell, e[2].path)
        m = self.mapof(st, e[0])
        self.ip.store(st, e[0].cell, e[0].path, MapV(m.ty, m.base, m.ins + (("d", e[1]),)))
        return self.ret(st, old)

    def m_map_remove(self, st, c, a, dty, loc):
        m = self.mapof(st, a[0])
        p = self.flat(st, a[0])
        k = self.mapkey(st, a[1])
        return self._replaced(st, m, p, k, dty, MapV(m.ty, m.base, m.ins + (("d", k),)))

    # ------------------------------------------------------------ numbers
    def _be(self, st, v, n, sg):
        bs = st.bits(v, n)
        if bs is None:
            v = umod(v, n)
            bs = st.bits(v, n)
        if bs is None:
            v = A(atom("fn", ("u", v, n), 0, (1 << n) - 1))
            bs = st.bits(v, n)
        out = []
        for i in reversed(range(n // 8)):
            out.append(from_bits(bs[8 * i:8 * i + 8]))
        return out

    def m_num_to_be_bytes(self, st, c, a, dty, loc):
        n, sg = self.numinfo(c)
        return self.ret(st, Seq("u8", [(ONE, "e", x) for x in self._be(st, a[0], n, sg)]))

    def m_num_to_le_bytes(self, st, c, a, dty, loc):
        n, sg = self.numinfo(c)
        return self.ret(st, Seq("u8", [(ONE, "e", x) for x in reversed(self._be(st, a[0], n, sg))]))

    m_num_to_ne_bytes = m_num_to_le_bytes
    m_float_to_be_bytes = m_num_to_be_bytes
    m_float_to_le_bytes = m_num_to_le_bytes
    m_float_to_ne_bytes = m_num_to_le_bytes

    def numinfo(self, c):
        h = self.head(c.get("implself"))
        if h in ("f32", "f64"):
            return int(h[1:]), False
        if h in ("usize", "isize"):
            return 64, h == "isize"
        return int(h[1:]), h[0] == "i"

    def _frombytes(self, st, c, a, le):
        n, sg = self.numinfo(c)
        v = self.seqof(st, a[0])
        bs = []
        k = n // 8
        for i in range(k):
            x = self.ip.seqget(st, v, C(i))
            bs.append(x)
        if not le:
            bs.reverse()
        acc = ZERO
        for i, x in enumerate(bs):
            acc = acc + x * (1 << (8 * i))
        acc = st.norm(acc)
        if sg:
            acc = self.ip.wrap(st, acc, "i%d" % n)
        return self.ret(st, acc)

    def m_num_from_be_bytes(self, st, c, a, dty, loc):
        return self._frombytes(st, c, a, False)

    def m_num_from_le_bytes(self, st, c, a, dty, loc):
        return self._frombytes(st, c, a, True)

    m_num_from_ne_bytes = m_num_from_le_bytes
    m_float_from_be_bytes = m_num_from_be_bytes
    m_float_from_le_bytes = m_num_from_le_bytes
    m_float_from_ne_bytes = m_num_from_le_bytes

    def m_num_to_be(self, st, c, a, dty, loc):
        n, sg = self.numinfo(c)
        bs = self._be(st, a[0], n, sg)
        acc = ZERO
        for i, x in enumerate(bs):
            acc = acc + x * (1 << (8 * i))
        return self.ret(st, smod(acc, n) if sg else acc)

    m_num_from_be = m_num_to_be
    m_num_swap_bytes = m_num_to_be

    def _ident(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    m_num_to_le = _ident
    m_num_from_le = _ident
    m_float_from_bits = _ident
    m_float_to_bits = _ident

    def m_num_clone(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.deref(st, a[0]) if isinstance(a[0], Ptr) else a[0])

    def arith(self, op, a, b, st):
        return a + b if op == "add" else a - b if op == "sub" else self.ip.mul(st, a, b)

    def _arith(self, st, c, a, dty, loc):
        name = c["name"]
        mode, op = name.split("_", 1)
        h = self.head(c.get("implself"))
        lo, hi = self.ip.trange(h)
        x = self.arith(op, a[0], a[1], st)
        inr = conj([ge(x, C(lo)), ge(C(hi), x)])
        if mode == "checked":
            return self.fork(st, inr, lambda s: self.ret(s, opt_some(dty, s.norm(x))),
                             lambda s: self.ret(s, opt_none(dty)))
        if mode == "wrapping":
            return self.ret(st, self.ip.wrap(st, x, h))
        if mode == "unchecked":
            return self.ret(st, x)
        if mode == "overflowing":
            return self.ret(st, Struct(dty, [self.ip.wrap(st, x, h), negc(inr)]))
        if mode == "saturating":
            out = []
            for s in self.ip.branch(st, inr):
                out += self.ret(s, s.norm(x))
            for s in self.ip.branch(st, lt(x, C(lo))):
                out += self.ret(s, C(lo))
            for s in self.ip.branch(st, lt(C(hi), x)):
                out += self.ret(s, C(hi))
            return out
        return None

    for _m in ("checked", "wrapping", "unchecked", "overflowing", "saturating"):
        for _o in ("add", "sub", "mul"):
            locals()["m_num_%s_%s" % (_m, _o)] = _arith

    def m_num_unsigned_abs(self, st, c, a, dty, loc):
        return self.fork(st, ge(a[0], ZERO), lambda s: self.ret(s, a[0]), lambda s: self.ret(s, -a[0]))

    def m_num_abs(self, st, c, a, dty, loc):
        n, _ = self.numinfo(c)
        neg = lambda s: self.guard(s, ge(a[0], C(1 - (1 << (n - 1)))), "overflow", loc, lambda z: self.ret(z, -a[0]))
        return self.fork(st, ge(a[0], ZERO), lambda s: self.ret(s, a[0]), neg)

    def m_num_wrapping_abs(self, st, c, a, dty, loc):
        n, _ = self.numinfo(c)
        neg = lambda s: self.fork(s, ge(a[0], C(1 - (1 << (n - 1)))), lambda z: self.ret(z, -a[0]), lambda z: self.ret(z, a[0]))
        return self.fork(st, ge(a[0], ZERO), lambda s: self.ret(s, a[0]), neg)

    def m_num_signum(self, st, c, a, dty, loc):
        return self.fork(st, eq(a[0], ZERO), lambda s: self.ret(s, ZERO),
                         lambda s: self.fork(s, ge(a[0], ONE), lambda z: self.ret(z, ONE), lambda z: self.ret(z, C(-1))))

    def m_num_abs_diff(self, st, c, a, dty, loc):
        return self.fork(st, ge(a[0], a[1]), lambda s: self.ret(s, a[0] - a[1]), lambda s: self.ret(s, a[1] - a[0]))

    def _shift(self, st, c, a, dty, loc):
        mode, op = c["name"].split("_", 1)
        h = self.head(c.get("implself"))
        n, sg = self.ip.intinfo(h)
        o = "Shl" if op == "shl" else "Shr"
        b = a[1]
        if mode == "wrapping":
            b = self.ip.binop(st, "BitAnd", b, C(n - 1), "u32")
            return self.ret(st, self.ip.binop(st, o, a[0], b, h))
        if mode == "checked":
            return self.fork(st, lt(b, C(n)),
                             lambda s: self.ret(s, opt_some(dty, self.ip.binop(s, o, a[0], b, h))),
                             lambda s: self.ret(s, opt_none(dty)))
        return None

    m_num_wrapping_shl = _shift
    m_num_wrapping_shr = _shift
    m_num_checked_shl = _shift
    m_num_checked_shr = _shift

    def m_num_wrapping_neg(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.wrap(st, -a[0], self.head(c.get("implself"))))

    def m_num_to_ascii_lowercase(self, st, c, a, dty, loc):
        return self.ascii(st, self.pointee(st, a[0]), 65, 32, lambda s, x: self.ret(s, x))

    def m_num_to_ascii_uppercase(self, st, c, a, dty, loc):
        return self.ascii(st, self.pointee(st, a[0]), 97, -32, lambda s, x: self.ret(s, x))

    def m_num_eq_ignore_ascii_case(self, st, c, a, dty, loc):
        x, y = self.pointee(st, a[0]), self.pointee(st, a[1])
        return self.ascii(st, x, 65, 32, lambda s, x: self.ascii(s, y, 65, 32, lambda q, y: self.ret(q, eq(x, y))))

    def pointee(self, st, x):
        return self.ip.load(st, x.cell, x.path) if isinstance(x, Ptr) else x

    def ascii(self, st, x, lo, d, go):
        return self.fork(st, conj([ge(x, C(lo)), ge(C(lo + 25), x)]), lambda s: go(s, s.norm(x + d)), lambda s: go(s, x))

    def m_num_is_negative(self, st, c, a, dty, loc):
        return self.ret(st, lt(a[0], ZERO))

    def m_num_is_positive(self, st, c, a, dty, loc):
        return self.ret(st, lt(ZERO, a[0]))

    def _bitcount(self, st, c, a, dty, loc):
        n, sg = self.numinfo(c)
        x = st.norm(a[0])
        nm = c["name"]
        if x.const is not None:
            v = x.const & ((1 << n) - 1)
            r = {"leading_zeros": n - v.bit_length(), "count_ones": bin(v).count("1"),
                 "trailing_zeros": ((v & -v).bit_length() - 1) if v else n,
                 "count_zeros": n - bin(v).count("1"), "ilog2": v.bit_length() - 1}.get(nm)
            if r is not None:
                return self.ret(st, C(r))
        if nm == "leading_zeros" and not sg:
            # partition on the position of the top bit
            lo, hi = x.range()
            lo, hi = max(lo, 0), min(hi, (1 << n) - 1)
            out = []
            for b in range(0, n + 1):
                l = 0 if b == 0 else 1 << (b - 1)
                h = 0 if b == 0 else (1 << b) - 1
                if h < lo or l > hi:
                    continue
                for s in self.ip.branch(st, conj([ge(x, C(l)), ge(C(h), x)])):
                    out += self.ret(s, C(n - b))
            return out
        return self.ret(st, A(atom("fn", (nm, n, x), 0, n)))

    m_num_leading_zeros = _bitcount
    m_num_trailing_zeros = _bitcount
    m_num_count_ones = _bitcount
    m_num_count_zeros = _bitcount

    def m_num_pow(self, st, c, a, dty, loc):
        if a[0].const is not None and a[1].const is not None:
            lo, hi = self.ip.trange(self.head(c.get("implself")))
            v = a[0].const ** a[1].const
            if lo <= v <= hi:
                return self.ret(st, C(v))
            return [self.panic(st, "overflow:Mul", loc)]
        raise GiveUp("pow")

    def m_num_div_ceil(self, st, c, a, dty, loc):
        h = self.head(c.get("implself"))
        return self.guard(st, ne(a[1], ZERO), "div", loc,
                          lambda s: self.ret(s, self.ip.div(s, a[0] + a[1] - 1, a[1], False, h)))

    def _rot(self, st, c, a, dty, loc):
        n, sg = self.numinfo(c)
        k = st.norm(a[1])
        bs = st.bits(a[0], n)
        if k.const is None or bs is None:
            raise GiveUp("rotate")
        k = k.const % n
        if c["name"] == "rotate_left":
            k = n - k
        bs = bs[k:] + bs[:k]
        r = from_bits(bs)
        return self.ret(st, smod(r, n) if sg else r)

    m_num_rotate_left = _rot
    m_num_rotate_right = _rot

    # conversions that are not descended into
    def m_num_try_from(self, st, c, a, dty, loc):
        h = self.head(c.get("implself"))
        lo, hi = self.ip.trange(h)
        x = a[0]
        et = self.ip.t(dty)["variants"][1]["fields"][0]["ty"]
        return self.fork(st, conj([ge(x, C(lo)), ge(C(hi), x)]),
                         lambda s: self.ret(s, Enum(dty, 0, [x])),
                         lambda s: self.ret(s, Enum(dty, 1, [Opq(et, ("tryfrom", uid()))])))

    def m_num_from(self, st, c, a, dty, loc):
        x = a[0]
        if isinstance(x, (bool, Cond)):
            x = self.ip.toint(st, x)
        return self.ret(st, x) if isinstance(x, L) else None

    def m_float_from(self, st, c, a, dty, loc):
        return None

    def m_array_try_from(self, st, c, a, dty, loc):
        p = self.view(st, a[0])
        vi = self.ip.t(dty)["variants"]
        at, et = vi[0]["fields"][0]["ty"], vi[1]["fields"][0]["ty"]
        ai = self.ip.t(at)
        byref = ai["k"] == "ref"
        n = self.ip.t(ai["to"])["len"] if byref else ai["len"]

        def yes(s):
            v = Ptr(p.cell, p.path, p.rng) if byref else self.ip.ptrseq(s, p)
            return self.ret(s, Enum(dty, 0, [v]))
        return self.fork(st, eq(p.rng[1], C(n)), yes,
                         lambda s: self.ret(s, Enum(dty, 1, [Opq(et, ("tryfrom", uid()))])))

    def m_array_default(self, st, c, a, dty, loc):
        i = self.ip.t(dty)
        if self.ip.intinfo(i["elem"]) and i["len"] is not None:
            return self.ret(st, Seq(i["elem"], [(C(i["len"]), "r", ZERO)]))
        raise GiveUp("array default")

    # ------------------------------------------------------------ mem / any / misc
    def m_p_mem_swap(self, st, c, a, dty, loc):
        x, y = self.ip.deref(st, a[0]), self.ip.deref(st, a[1])
        self.ip.store(st, a[0].cell, a[0].path, y)
        self.ip.store(st, a[1].cell, a[1].path, x)
        return self.unit(st)

    def m_p_mem_replace(self, st, c, a, dty, loc):
        x = self.ip.deref(st, a[0])
        self.ip.store(st, a[0].cell, a[0].path, a[1])
        return self.ret(st, x)

    def m_p_mem_take(self, st, c, a, dty, loc):
        x = self.ip.deref(st, a[0])
        if isinstance(x, Seq):
            d = Seq(x.ety, [])
        elif isinstance(x, L):
            d = ZERO
        elif isinstance(x, MapV):
            d = MapV(x.ty, None)
        elif isinstance(x, (bool, Cond)):
            d = False
        else:
            raise GiveUp("mem::take")
        self.ip.store(st, a[0].cell, a[0].path, d)
        return self.ret(st, x)

    def m_p_mem_size_of(self, st, c, a, dty, loc):
        ii = self.ip.intinfo(c["targs"][0])
        if ii:
            return self.ret(st, C(ii[0] // 8))
        i = self.ip.t(c["targs"][0])
        if i["k"] == "array" and self.ip.intinfo(i["elem"]) and i["len"] is not None:
            return self.ret(st, C(i["len"] * self.ip.intinfo(i["elem"])[0] // 8))
        return self.ret(st, fresh("opq", 0, 1 << 20))

    def m_p_mem_drop(self, st, c, a, dty, loc):
        return self.unit(st)

    m_p_mem_forget = m_p_mem_drop
    m_p_drop = m_p_mem_drop

    def m_p_hint_black_box(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    m_p_hint_must_use = m_p_hint_black_box
    m_p_convert_identity = m_p_hint_black_box

    def tyname(self, st, p):
        """identity of the object behind a dyn pointer"""
        if p.vt is not None:
            return ("conc", p.vt)
        return ("dyn", p.cell[1] if p.cell[0] == "x" else p.cell)

    def m_p_any_TypeId_of(self, st, c, a, dty, loc):
        return self.ret(st, Opq(dty, ("tid", ("conc", c["targs"][0]))))

    def m_TypeId_of(self, st, c, a, dty, loc):
        return self.m_p_any_TypeId_of(st, c, a, dty, loc)

    def m_TypeId_eq(self, st, c, a, dty, loc):
        x, y = self.ip.deref(st, a[0]), self.ip.deref(st, a[1])
        return self.ret(st, self.sametype(x.name[1], y.name[1]))

    def sametype(self, x, y):
        if x == y:
            return True
        if x[0] == "conc" and y[0] == "conc":
            return False
        if x[0] == "conc":
            x, y = y, x
        return mkc("ne", A(atom("fn", ("isty", x, y), 0, 1)))

    def m_TypeId_ne(self, st, c, a, dty, loc):
        x, y = self.ip.deref(st, a[0]), self.ip.deref(st, a[1])
        return self.ret(st, negc(self.sametype(x.name[1], y.name[1])))

    def _downcast(self, st, c, a, dty, loc):
        p = a[0]
        t = c["targs"][-1]
        cond = self.sametype(self.tyname(st, p), ("conc", t))

        def yes(s):
            q = Ptr(p.cell, p.path)
            if p.cell[0] == "x" and p.vt is None and not p.path:
                # a typed view of the opaque object
                q = Ptr(("x", ("as", t, p.cell[1])))
                self.ip.ctype.setdefault(q.cell, t)
            return self.ret(s, opt_some(dty, q))
        return self.fork(st, cond, yes, lambda s: self.ret(s, opt_none(dty)))

    m_dyn_downcast_ref = _downcast
    m_dyn_downcast_mut = _downcast

    def m_dyn_is(self, st, c, a, dty, loc):
        return self.ret(st, self.sametype(self.tyname(st, a[0]), ("conc", c["targs"][-1])))

    def m_p_any_type_name(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.sym(dty, ("type_name",)))

    def m_Error_kind(self, st, c, a, dty, loc):
        p = a[0]
        return self.ret(st, Opq(dty, ("errkind", p.cell, p.path)))

    # intrinsics
    def m_intr_integer_min(self, st, c, a, dty, loc):
        return self._min(st, a[0], a[1])

    def _min(self, st, x, y):
        return self.fork(st, ge(y, x), lambda s: self.ret(s, x), lambda s: self.ret(s, y))

    def m_intr_integer_max(self, st, c, a, dty, loc):
        return self.fork(st, ge(a[0], a[1]), lambda s: self.ret(s, a[0]), lambda s: self.ret(s, a[1]))

    def m_intr_black_box(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    def m_intr_unlikely(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    m_intr_likely = m_intr_unlikely

    def m_intr_cold_path(self, st, c, a, dty, loc):
        return self.unit(st)

    def m_intr_assume(self, st, c, a, dty, loc):
        return self.unit(st)

    def m_intr_size_of(self, st, c, a, dty, loc):
        return self.m_p_mem_size_of(st, c, a, dty, loc)

    def m_intr_three_way_compare(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.binop(st, "Cmp", a[0], a[1], c["targs"][0]))

    def m_intr_wrapping_add(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.wrap(st, a[0] + a[1], c["targs"][0]))

    def m_intr_wrapping_sub(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.wrap(st, a[0] - a[1], c["targs"][0]))

    def m_intr_wrapping_mul(self, st, c, a, dty, loc):
        return self.ret(st, self.ip.wrap(st, self.ip.mul(st, a[0], a[1]), c["targs"][0]))

    # ------------------------------------------------------------ abstract objects
    def objname(self, p):
        if not isinstance(p, Ptr):
            return ("val", p)
        n = p.cell[1] if p.cell[0] == "x" else p.cell
        return (n, p.path) if p.path else n

    def objver(self, st, p):
        return st.ver.get((p.cell, p.path), 0) if isinstance(p, Ptr) else 0

    def bump(self, st, p):
        k = (p.cell, p.path)
        st.ver = dict(st.ver)
        v = st.ver.get(k, 0)
        st.ver[k] = v + 1 if isinstance(v, int) else ("bump", v)

    def ident(self, st, p):
        """(name, version) of the content of an abstract object"""
        v = self.objver(st, p)
        return v[1:] if isinstance(v, tuple) and v[0] == "is" else (self.objname(p), v)

    def serseg(self, st, p, n, what):
        nm, v = self.ident(st, p)
        return (n, "ser", nm if v == 0 else ("ver", nm, v), what)

    def enumty(self, dty, var, n=0):
        return self.ip.t(dty)["variants"][var]["fields"][n]["ty"]

    def ok(self, st, dty, v=None):
        if v is None:
            v = Struct("()", [])
        return self.ret(st, Enum(dty, 0, [v]))

    def err(self, st, dty, why):
        et = self.enumty(dty, 1)
        return self.ret(st, Enum(dty, 1, [Opq(et, ("err", why))]))

    # -- readers
    def poscell(self, p):
        return ("pos", p.cell, p.path)

    def pos(self, st, p):
        c = self.poscell(p)
        v = st.cells.get(c)
        if v is None:
            v = ZERO
            self.ip.ctype[c] = "usize"
            st.cells[c] = v
        return v

    def content(self, st, p, pos, n):
        t = st.cells.get(("tape", p.cell, p.path))
        if t is not None:
            return self.ip.seqslice(st, t, pos, n)
        return Seq("u8", [(n, "o", ("stream", p.cell, p.path), pos)])

    def readers_fail(self, st, p):
        return self.err_paths and ("nofail", p.cell, p.path) not in st.cells

    def rd(self, st, p, n, loc, dty, via, cont):
        """read n bytes from an abstract reader"""
        out = []
        n = st.norm(n)
        t = st.cells.get(("tape", p.cell, p.path))
        s = st.copy()
        pos = self.pos(s, p)
        cond = True
        if t is not None:
            cond = ge(t.len - pos, n)
        for z in self.ip.branch(s, cond):
            z = z.copy()
            data = self.content(z, p, pos, n)
            z.cells[self.poscell(p)] = z.norm(pos + n)
            self.log(z, Ev("rd", (p.cell, p.path), True, self.where(loc), n=n, pos=pos, via=via))
            out += cont(z, data)
        if t is not None:
            for z in self.ip.branch(s, negc(cond)):
                z = z.copy()
                self.log(z, Ev("rd", (p.cell, p.path), False, self.where(loc), n=n, pos=pos, via=via))
                out += self.err(z, dty, ("eof", uid()))
        elif self.readers_fail(s, p):
            z = s.copy()
            self.log(z, Ev("rd", (p.cell, p.path), False, self.where(loc), n=n, pos=pos, via=via))
            z.cells[self.poscell(p)] = fresh("pos", 0, LENMAX)
            out += self.err(z, dty, ("io", (p.cell, p.path), uid()))
        return out

    def t_Reader_read(self, st, c, a, dty, loc):
        p = a[0]
        return self.rd(st, p, ONE, loc, dty, "read",
                       lambda s, d: self.ok(s, dty, self.ip.seqget(s, d, ZERO)))

    def t_Reader_read_all(self, st, c, a, dty, loc):
        p, b = a[0], self.view(st, a[1])

        def cont(s, d):
            self.ip.ptrfill(s, b, d)
            return self.ok(s, dty)
        return self.rd(st, p, b.rng[1], loc, dty, "read_all", cont)

    def t_Reader_skip(self, st, c, a, dty, loc):
        return self.rd(st, a[0], a[1], loc, dty, c["name"], lambda s, d: self.ok(s, dty))

    t_Reader_skip_u64 = t_Reader_skip

    def t_Read_read_exact(self, st, c, a, dty, loc):
        p, b = a[0], self.view(st, a[1])

        def cont(s, d):
            self.ip.ptrfill(s, b, d)
            return self.ok(s, dty)
        return self.rd(st, p, b.rng[1], loc, dty, "read_exact", cont)

    def t_Read_read(self, st, c, a, dty, loc):
        """a short read: any k <= len"""
        p, b = a[0], self.view(st, a[1])
        s = st.copy()
        k = fresh("short", 0, LENMAX)
        s.assume(ge(b.rng[1], k))

        def cont(z, d):
            q = Ptr(b.cell, b.path, (b.rng[0], k))
            self.ip.ptrfill(z, q, d)
            return self.ok(z, dty, k)
        # k must stay the same when the run is split
        return self.ip.splitting(s, lambda z: self.rd(z, p, k, loc, dty, "short-read", cont))

    # -- writers
    def wr(self, st, p, seq, loc, dty, via, okval=None):
        out = []
        s = st.copy()
        self.log(s, Ev("wr", (p.cell, p.path), True, self.where(loc), seq=seq, n=s.norm(seq.len), via=via))
        out += self.ok(s, dty, okval)
        if self.err_paths and ("nofail", p.cell, p.path) not in st.cells:
            z = st.copy()
            self.log(z, Ev("wr", (p.cell, p.path), False, self.where(loc), seq=seq, n=z.norm(seq.len), via=via))
            out += self.err(z, dty, ("io", (p.cell, p.path), uid()))
        return out

    def t_Writer_write(self, st, c, a, dty, loc):
        return self.wr(st, a[0], Seq("u8", [(ONE, "e", a[1])]), loc, dty, "write")

    def t_Writer_write_all(self, st, c, a, dty, loc):
        return self.wr(st, a[0], self.ip.ptrseq(st, self.view(st, a[1])), loc, dty, "write_all")

    def t_Writer_as_writer(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    def t_Write_write_all(self, st, c, a, dty, loc):
        return self.wr(st, a[0], self.ip.ptrseq(st, self.view(st, a[1])), loc, dty, "std-write_all")

    def t_Write_write(self, st, c, a, dty, loc):
        """std write: may accept any k <= len bytes"""
        seq = self.ip.ptrseq(st, self.view(st, a[1]))
        s = st.copy()
        n = st.norm(seq.len).const
        if n is not None and n <= 8:
            # small buffers: one case per accepted length
            out = []
            for k in range(n, -1, -1):
                part = self.ip.seqslice(s, seq, ZERO, C(k))
                out += self.wr(s, a[0], Seq("u8", part.segs), loc, dty, "short-write", C(k))
            return out
        k = fresh("short", 0, LENMAX)
        s.assume(ge(seq.len, k))
        part = self.ip.seqslice(s, seq, ZERO, k)
        return self.wr(s, a[0], Seq("u8", part.segs), loc, dty, "short-write", k)

    def t_Write_flush(self, st, c, a, dty, loc):
        self.log(st, Ev("flush", (a[0].cell, a[0].path), True, self.where(loc)))
        s = st.copy()
        return self.ok(s, dty) + self.err(st, dty, ("io", uid()))

    # -- seek
    def slen(self, p):
        return A(atom("fn", ("slen", p.cell, p.path), 0, ISIZE))

    def spos(self, st, p):
        c = ("spos", p.cell, p.path)
        if c not in st.cells:
            st.cells[c] = A(atom("fn", ("spos0", p.cell, p.path), 0, U64))
            self.ip.ctype[c] = "u64"
        return st.cells[c]

    def seekfail(self, st, p, dty, loc, what):
        z = st.copy()
        self.log(z, Ev("seek", (p.cell, p.path), False, self.where(loc), what=what))
        return self.err(z, dty, ("io", (p.cell, p.path), uid()))

    def t_Seek_seek(self, st, c, a, dty, loc):
        p, w = a[0], a[1]
        if not isinstance(w, Enum):
            raise GiveUp("seek argument")
        st = st.copy()
        cur = self.spos(st, p)
        d = w.fields[0]
        np = d if w.var == 0 else self.slen(p) + d if w.var == 1 else cur + d
        np = st.norm(np)
        out = []
        for s in self.ip.branch(st, conj([ge(np, ZERO), ge(C(U64), np)])):
            s = s.copy()
            s.cells[("spos", p.cell, p.path)] = np
            self.log(s, Ev("seek", (p.cell, p.path), True, self.where(loc), what=w, to=np))
            out += self.ok(s, dty, np)
        out += self.seekfail(st, p, dty, loc, w)
        return out

    def t_Seek_stream_position(self, st, c, a, dty, loc):
        st = st.copy()
        cur = self.spos(st, a[0])
        return self.ok(st, dty, cur) + self.seekfail(st, a[0], dty, loc, "position")

    def t_Seek_rewind(self, st, c, a, dty, loc):
        s = st.copy()
        s.cells[("spos", a[0].cell, a[0].path)] = ZERO
        return self.ok(s, dty) + self.seekfail(st, a[0], dty, loc, "rewind")

    # -- tags
    def tagatom(self, st, p, m, lo, hi):
        return st.norm(A(atom("fn", ("tag", m) + self.ident(st, p), lo, hi)))

    def t_ILTag_id(self, st, c, a, dty, loc):
        return self.ret(st, st.norm(A(atom("fn", ("tag", "id", self.objname(a[0])), 0, U64))))

    def t_ILTag_value_size(self, st, c, a, dty, loc):
        return self.ret(st, self.tagatom(st, a[0], "vsize", 0, self.tagmax()))

    def t_ILTag_size(self, st, c, a, dty, loc):
        return self.ret(st, self.tagsize(st, a[0]))

    def tagsize(self, st, p):
        return self.tagatom(st, p, "size", 1, self.tagmax())

    def t_ILTag_is_implicity(self, st, c, a, dty, loc):
        i = st.norm(A(atom("fn", ("tag", "id", self.objname(a[0])), 0, U64)))
        return self.ret(st, ge(C(15), i))

    def t_ILTag_is_reserved(self, st, c, a, dty, loc):
        i = st.norm(A(atom("fn", ("tag", "id", self.objname(a[0])), 0, U64)))
        return self.ret(st, ge(C(31), i))

    def t_ILTag_as_any(self, st, c, a, dty, loc):
        return self.ret(st, a[0])

    t_ILTag_as_mut_any = t_ILTag_as_any

    def t_Any_type_id(self, st, c, a, dty, loc):
        return self.ret(st, Opq(dty, ("tid", self.tyname(st, a[0]))))

    def subwrite(self, st, p, w, seq, dty, loc):
        """an abstract object writes its bytes with one call on the writer it was given"""
        st = st.copy()
        cell = self.ip.newcell(st, seq, "[u8]", "sub")
        out = []
        for o in self.trait_invoke(st, w, "il2_iltags::io::Writer", "write_all",
                                   [w, Ptr(cell, (), (ZERO, seq.len))], "io", loc):
            if o.kind == "panic":
                out.append(o)
                continue
            o.st = o.st.copy()
            o.st.cells.pop(cell, None)
            if isinstance(o.val, Enum) and o.val.var == 0:
                out += self.ok(o.st, dty)
            elif isinstance(o.val, Enum):
                out += self.suberr(o.st, dty, o.val.fields[0])
            else:
                raise GiveUp("result of nested write")
        if self.err_paths:
            # it may also fail for reasons of its own
            z = st.copy()
            z.cells.pop(cell, None)
            self.log(z, Ev("subser", self.objname(p), False, self.where(loc)))
            out += self.err(z, dty, ("subser", uid()))
        return out

    def suberr(self, st, dty, e):
        et = self.enumty(dty, 1)
        if getattr(e, "ty", None) == et:
            return self.ret(st, Enum(dty, 1, [e]))
        return self.ret(st, Enum(dty, 1, [Opq(et, ("err", ("sub", e)))]))

    def iorty(self, unit=True):
        for k in self.ip.types:
            if k == "std::result::Result<(), il2_iltags::io::ErrorKind>":
                return k
        raise GiveUp("no io::Result type")

    def trait_invoke(self, st, p, trait, name, args, kind, loc):
        """call trait method `name` on object p (concrete through its vtable, or abstract)"""
        dty = self.iorty()
        return self.ip.call({"path": trait + "::" + name, "name": name, "trait": trait, "kind": "virtual",
                             "targs": []}, args, st, dty, loc)

    def t_ILTag_serialize(self, st, c, a, dty, loc):
        p = a[0]
        return self.subwrite(st, p, a[1], Seq("u8", [self.serseg(st, p, self.tagsize(st, p), "tag")]), dty, loc)

    def t_ILTag_serialize_value(self, st, c, a, dty, loc):
        p = a[0]
        n = self.tagatom(st, p, "vsize", 0, self.tagmax())
        return self.subwrite(st, p, a[1], Seq("u8", [self.serseg(st, p, n, "value")]), dty, loc)

    def t_ILTagPayload_serialized_size(self, st, c, a, dty, loc):
        return self.ret(st, self.tagatom(st, a[0], "vsize", 0, self.tagmax()))

    t_ILTagPayload_serialize = t_ILTag_serialize_value

    def subread(self, st, r, n, loc, cont, fail):
        """an abstract callee consumes n bytes through reader r"""
        st = st.copy()
        cell = self.ip.newcell(st, Seq("u8", [(n, "r", ZERO)]), "[u8]", "sub")
        out = []
        for o in self.trait_invoke(st, r, "il2_iltags::io::Reader", "read_all",
                                   [r, Ptr(cell, (), (ZERO, n))], "io", loc):
            if o.kind == "panic":
                out.append(o)
                continue
            s = o.st.copy()
            data = s.cells.pop(cell)
            if isinstance(o.val, Enum) and o.val.var == 0:
                out += cont(s, data)
            else:
                out += fail(s, o.val.fields[0])
        return out

    def peek(self, st, r):
        """(base reader pointer, pos) an object reads from, or None"""
        seen = 0
        p = r
        while isinstance(p, Ptr) and seen < 8:
            seen += 1
            if p.vt is None and p.cell[0] == "x" and not p.path:
                return p
            v = self.ip.load(st, p.cell, p.path)
            if isinstance(v, Ptr):
                p = v
                continue
            if isinstance(v, Struct):
                nx = [f for f in v.fields if isinstance(f, Ptr)]
                if len(nx) == 1:
                    p = nx[0]
                    continue
            return p if p.vt is None else None
        return None

    def tapeseg(self, st, base):
        """the tape segment at the current position of a base reader"""
        t = st.cells.get(("tape", base.cell, base.path))
        if t is None:
            return None
        pos = self.pos(st, base)
        if st.prove(pos - t.len):
            return ()
        _, r = self.ip.seqsplit(st, t, pos)
        return r

    def starhead(self, st, segs):
        """first segment of a tape suffix, entering a repetition"""
        for g in segs:
            if g[1] == "star":
                if st.prove(g[2] - 1):
                    return self.starhead(st, rewrite(g[4], {g[3]: ZERO}, {}))
                if st.same(g[2], ZERO):
                    continue
                raise Split([ge(g[2], ONE), eq(g[2], ZERO)])
            if g[0].range()[0] >= 1 or st.prove(g[0] - 1):
                return g
            if st.same(g[0], ZERO):
                continue
            raise Split([ge(g[0], ONE), eq(g[0], ZERO)])
        return None

    def t_ILTagFactory_deserialize(self, st, c, a, dty, loc):
        """an abstract factory consumes one whole tag"""
        r = a[1]
        base = self.peek(st, r)
        seg = None
        st = st.copy()
        if base is not None:
            rest = self.tapeseg(st, base)
            if rest is not None:
                seg = self.starhead(st, rest)
                if seg is None or seg[1] != "ser" or seg[3] != "tag":
                    # the bytes here are not a serialised tag
                    self.log(st, Ev("mismatch", None, False, self.where(loc), want="tag", got=str(seg)))
                    return self.err(st, dty, ("mismatch", uid()))
        bt = self.enumty(dty, 0)
        if seg is not None:
            n, nm = seg[0], seg[2]
        else:
            pos = self.pos(st, base) if base is not None else fresh("pos", 0, LENMAX)
            st_name = ("stream", base.cell, base.path) if base is not None else ("stream", uid())
            n = A(atom("fn", ("taglen", st_name, pos), 1, LENMAX >> 1))
            nm = ("tagat", st_name, pos)

        def cont(s, data):
            self.ip.stats["sub"] = self.ip.stats.get("sub", 0) + 1
            self.log(s, Ev("subtag", self.objname(a[0]), True, self.where(loc), n=n, name=nm, via=c["name"]))
            cell = ("x", nm)
            self.ip.ctype.setdefault(cell, self.ip.pointee(bt))
            o = self.ok(s, dty, Ptr(cell))
            if seg is None and self.err_paths:
                z = s.copy()
                self.log(z, Ev("subtag", self.objname(a[0]), False, self.where(loc), n=n, name=nm, via=c["name"]))
                o += self.err(z, dty, ("subtag", uid()))
            return o

        def fail(s, e):
            self.log(s, Ev("subtag", self.objname(a[0]), False, self.where(loc), n=n, name=nm, via=c["name"]))
            return self.err(s, dty, ("sub", e))
        return self.subread(st, r, n, loc, cont, fail)

    def t_ILTagFactory_deserialize_into(self, st, c, a, dty, loc):
        return self._subdes(st, c, a[1], a[2], None, dty, loc)

    def t_ILTag_deserialize_value(self, st, c, a, dty, loc):
        return self._subdes(st, c, a[3], a[0], a[2], dty, loc)

    t_ILTagPayload_deserialize = t_ILTag_deserialize_value

    def _subdes(self, st, c, r, tag, size, dty, loc):
        n = fresh("sub", 0, LENMAX >> 1)
        seg = None
        base = self.peek(st, r)
        if base is not None and size is not None:
            rest = self.tapeseg(st, base)
            if rest and rest[0][1] == "ser" and rest[0][3] == "value" and st.same(rest[0][0], size):
                seg = rest[0]
                n = size

        def cont(s, data):
            self.bump(s, tag)
            if seg is not None:
                s.ver[(tag.cell, tag.path)] = ("is",) + (seg[2][1:] if seg[2][0] == "ver" else (seg[2], 0))
                self.log(s, Ev("subval", self.objname(tag), True, self.where(loc), n=n, size=size, via=c["name"]))
                return self.ok(s, dty)
            self.log(s, Ev("subval", self.objname(tag), True, self.where(loc), n=n, size=size, via=c["name"]))
            o = self.ok(s, dty)
            z = s.copy()
            self.log(z, Ev("subval", self.objname(tag), False, self.where(loc), n=n, size=size, via=c["name"]))
            return o + self.err(z, dty, ("subval", uid()))

        def fail(s, e):
            self.bump(s, tag)
            self.log(s, Ev("subval", self.objname(tag), False, self.where(loc), n=n, size=size, via=c["name"]))
            return self.err(s, dty, ("sub", e))
        return self.subread(st, r, n, loc, cont, fail)

    def t_ILTagFactory_create_tag(self, st, c, a, dty, loc):
        cond = mkc("ne", A(atom("fn", ("creates", self.objname(a[0]), a[1]), 0, 1)))
        bt = self.enumty(dty, 1)
        nm = ("created", self.objname(a[0]), a[1])

        def yes(s):
            cell = ("x", nm)
            self.ip.ctype.setdefault(cell, self.ip.pointee(bt))
            self.log(s, Ev("create", self.objname(a[0]), True, self.where(loc), id=a[1], name=nm))
            s.assume(eq(A(atom("fn", ("tag", "id", nm), 0, U64)), a[1]))
            return self.ret(s, opt_some(dty, Ptr(cell)))
        return self.fork(st, cond, yes, lambda s: self.ret(s, opt_none(dty)))

    def t_ILTagCreator_create_empty_tag(self, st, c, a, dty, loc):
        nm = ("created", self.objname(a[0]), a[1])
        cell = ("x", nm)
        self.ip.ctype.setdefault(cell, self.ip.pointee(dty))
        self.log(st, Ev("create", self.objname(a[0]), True, self.where(loc), id=a[1], name=nm))
        return self.ret(st, Ptr(cell))

    def t_ILTagFactory_from_bytes(self, st, c, a, dty, loc):
        v = self.ip.ptrseq(st, self.view(st, a[1]))
        s = st.copy()
        bt = self.enumty(dty, 0)
        self.log(s, Ev("from_bytes", self.objname(a[0]), True, self.where(loc), seq=v))
        cell = ("x", ("from_bytes", v))
        self.ip.ctype.setdefault(cell, self.ip.pointee(bt))
        z = st.copy()
        self.log(z, Ev("from_bytes", self.objname(a[0]), False, self.where(loc), seq=v))
        return self.ok(s, dty, Ptr(cell)) + self.err(z, dty, ("from_bytes", v))

    def t_ILTag_to_bytes(self, st, c, a, dty, loc):
        p = a[0]
        s = st.copy()
        seq = Seq("u8", [self.serseg(st, p, self.tagsize(st, p), "tag")])
        self.log(s, Ev("to_bytes", self.objname(p), True, self.where(loc)))
        z = st.copy()
        self.log(z, Ev("to_bytes", self.objname(p), False, self.where(loc)))
        return self.ok(s, dty, seq) + self.err(z, dty, ("to_bytes", self.objname(p)))

    # -- crate traits seen through a generic parameter: MemoryReader / SizedSeek
    def t_MemoryReader_len(self, st, c, a, dty, loc):
        return self.ret(st, A(atom("fn", ("mr", "len", self.objname(a[0])), 0, ISIZE)))

    def t_MemoryReader_offset(self, st, c, a, dty, loc):
        o = A(atom("fn", ("mr", "offset", self.objname(a[0])), 0, ISIZE))
        n = A(atom("fn", ("mr", "len", self.objname(a[0])), 0, ISIZE))
        st.assume(ge(n, o))
        return self.ret(st, o)

    def t_MemoryReader_available(self, st, c, a, dty, loc):
        o = A(atom("fn", ("mr", "offset", self.objname(a[0])), 0, ISIZE))
        n = A(atom("fn", ("mr", "len", self.objname(a[0])), 0, ISIZE))
        st.assume(ge(n, o))
        return self.ret(st, n - o)

    def t_SizedSeek_len(self, st, c, a, dty, loc):
        return self.ok(st.copy(), dty, self.slen(a[0])) + self.err(st, dty, ("io", uid()))

    def t_SizedSeek_offset(self, st, c, a, dty, loc):
        st = st.copy()
        o = self.spos(st, a[0])
        return self.ok(st.copy(), dty, o) + self.err(st, dty, ("io", uid()))

    # ------------------------------------------------------------ fallbacks
    def trait_call(self, st, callee, args, dty, loc):
        tr = (callee.get("trait") or "").split("::")[-1]
        h = getattr(self, "t_%s_%s" % (tr, callee["name"]), None)
        if h is not None:
            r = h(st, callee, args, dty, loc)
            if r is not None:
                return r
        # default method of a crate trait on an abstract receiver
        k = self.default_body(callee)
        if k is not None:
            return self.ip.run_fn(self.ip.fn(k), args, st, loc)
        return self.generic_call(st, callee, args, dty, loc)

    def default_body(self, callee):
        for it in self.ip.by_path.get(callee["path"], ()):
            if it.get("trait_default") and it["key"] in self.ip.raw:
                return it["key"]
        return None

    def generic_call(self, st, callee, args, dty, loc):
        """a call the analysis knows only by name"""
        i = self.ip.t(dty)
        nm = ("ret", callee["path"], uid())
        obj = self.objname(args[0]) if args and isinstance(args[0], Ptr) else None
        fields = dict(path=callee["path"], args=tuple(args[1:] if obj is not None else args))
        if i["k"] == "adt" and i.get("def") == "std::result::Result":
            s, z = st.copy(), st.copy()
            okv = self.ip.sym(self.enumty(dty, 0), nm)
            self.log(s, Ev("call", obj, True, self.where(loc), ret=okv, **fields))
            self.log(z, Ev("call", obj, False, self.where(loc), ret=nm, **fields))
            return self.ok(s, dty, okv) + self.err(z, dty, nm)
        v = self.ip.sym(dty, nm)
        self.log(st, Ev("call", obj, True, self.where(loc), ret=v, **fields))
        return self.ret(st, v)

    def opaque(self, st, callee, args, dty, loc, rec=False):
        d = self.ip.stats["opaque"]
        d[callee["path"]] = d.get(callee["path"], 0) + 1
        if rec:
            raise GiveUp("recursion through %s" % callee["path"])
        if not any(x in callee["path"] for x in ("fmt::", "::panicking", "precondition_check")):
            st.notes = st.notes + (("opq", callee["path"]),)
            for a in args:
                if isinstance(a, Ptr):
                    try:
                        v = self.ip.load(st, a.cell, a.path)
                    except (GiveUp, Infeasible):
                        continue
                    ty = self.ip.ctype.get(a.cell)
                    if isinstance(v, Seq):
                        self.ip.store(st, a.cell, a.path, Seq(v.ety, [(v.len, "?", ("opq", uid()))]))
                    elif isinstance(v, L):
                        self.ip.store(st, a.cell, a.path, fresh("opq", *v.range()))
                    elif isinstance(v, MapV):
                        self.ip.store(st, a.cell, a.path, MapV(v.ty, ("opq", uid())))
        return self.ret(st, self.ip.sym(dty, ("opq", callee["path"], uid())))
