"""C19: the in-memory writers."""
from .tags import *
from .c13 import splitmin

WR = "io::Writer"
TYPES = ["io::array::VecWriter", "io::array::BorrowedVecWriter", "io::array::ByteArrayWriter"]


def main():
    ck = Check("C19", "in-memory writers")
    ck.go(check)
    return ck.finish(
        "Every method of VecWriter, BorrowedVecWriter and ByteArrayWriter is abstractly interpreted on a generic object, seen only "
        "through as_slice() (for ByteArrayWriter: the borrowed array), get_offset() and is_read_only(), and compared with the model "
        "(data D, offset o <= |D|, read-only flag): the new data is D with the buffer laid over it at o, the offset moves by exactly "
        "the bytes written, a refused write changes nothing at all, a fixed array never grows. Constructors establish the invariant, "
        "every method keeps it, the fields are private.", floor=120)


class W:
    def __init__(self, ck, ty):
        self.ck = ck
        self.name = ty.split("::")[-1]
        ts = [i["self"] for i in ck.impls(WR) if i["self"].split("<")[0] == CR + ty]
        if not ts:
            ck.violation("anchor:Writer for " + ty, "%s no longer implements Writer" % ty)
            raise Undecided("no impl")
        self.ty = ts[0]
        self.fixed = self.name == "ByteArrayWriter"
        self.off = self.inherent("get_offset")
        self.slice = None if self.fixed else self.inherent("as_slice")
        self.ro = None if self.fixed else self.inherent("is_read_only")
        if self.off is None or not self.fixed and None in (self.slice, self.ro):
            raise Undecided("an observer is gone")

    def inherent(self, n):
        for it in self.ck.items:
            if it.get("impl_self") and it["impl_self"].split("<")[0] == self.ty.split("<")[0] and it["name"] == n and not it.get("impl_trait"):
                if it["key"] in self.ck.ip.raw:
                    return it["key"]
        self.ck.violation("anchor:%s::%s" % (self.name, n), "the method %s::%s is gone" % (self.name, n))
        return None

    def data(self, what, p, st):
        """[(state, data)]"""
        ck = self.ck
        if not self.fixed:
            return [(s, ck.ip.models.seqof(s, d)) for s, d in obs(ck, "observe", what + "/as_slice", self.slice, [p], st)]
        st = st.copy()
        v = ck.ip.load(st, p.cell, p.path)
        if isinstance(v, Opq):
            raise Undecided("unreadable representation")
        refs = [f for f in v.fields if isinstance(f, Ptr)]
        if len(refs) != 1:
            raise Undecided("the borrowed array is not the only reference held")
        return [(st, ck.ip.models.seqof(st, refs[0]))]

    def look(self, what, p, st):
        """[(state, data, offset, read_only)]"""
        ck = self.ck
        out = []
        for s, D in self.data(what, p, st):
            for s2, o in obs(ck, "observe", what + "/get_offset", self.off, [p], s):
                if self.fixed:
                    out.append((s2, D, o, False))
                    continue
                for s3, r in obs(ck, "observe", what + "/is_read_only", self.ro, [p], s2):
                    out.append((s3, D, o, as_bool(s3, r)))
        return out

    def each(self, what, key):
        """generic objects under the invariant: (args, state, D, o, read_only as bool)"""
        ck = self.ck
        a = ck.args(key)
        st = State()
        if self.fixed:
            # make the object concrete so that its array can be found
            v = ck.ip.load(st, a[0].cell, a[0].path)
            if isinstance(v, Opq):
                v = ck.ip.sym(v.ty, v.name)
                ck.ip.store(st, a[0].cell, a[0].path, v)
        for s, D, o, r in self.look(what, a[0], st):
            for c, ro in ((r, True), (negc(r), False)):
                z = s.copy()
                if z.assume(c) and z.assume(ge(D.len, o)) and z.assume(ge(C((1 << 63) - 1), D.len)):
                    yield a, z, D, o, ro

    def same(self, what, st, p, D, o, ro):
        ck = self.ck
        for s, D2, o2, r2 in self.look(what, p, st):
            ck.ob("offset", what, s, eq(o2, o), "%s leaves the offset where the model has it" % what)
            same_seq(ck, "data", what, s, D2, D, "the data after %s" % what)
            ck.ob("invariant", what, s, ge(D2.len, o2), "%s keeps the offset within the data" % what)
            if ro is not None:
                ck.ob("readonly", what, s, r2 if ro else negc(r2), "%s leaves the read-only flag alone" % what)


def check(ck):
    for ty in TYPES:
        private(ck, ty)
        ck.step(ty, writer, ck, ty)


def writer(ck, ty):
    w = W(ck, ty)
    nm = w.name
    for n in ("write", "write_all"):
        k = ck.manchor(WR, w.ty, n)
        if k:
            ck.step(nm + "::" + n, write, ck, w, nm + "::" + n, k, n)
    k = ck.manchor(WR, w.ty, "as_writer")
    if k:
        ck.step(nm + "::as_writer", as_writer, ck, nm + "::as_writer", k)
    for n in ("set_offset",) + (("available",) if w.fixed else ("set_read_only", "can_write", "vec")):
        k = w.inherent(n)
        if k:
            ck.step(nm + "::" + n, query, ck, w, nm + "::" + n, k, n)
    for n in {"VecWriter": ("new", "with_capacity"), "BorrowedVecWriter": ("new", "with_offset"), "ByteArrayWriter": ("new",)}[nm]:
        k = w.inherent(n)
        if k:
            ck.step(nm + "::" + n, ctor, ck, w, nm + "::" + n, k, n)
    if nm == "VecWriter":
        k = ck.manchor("std::default::Default", w.ty, "default")
        if k:
            ck.step(nm + "::default", ctor, ck, w, nm + "::default", k, "default")
        k = into(ck, w)
        if k:
            ck.step(nm + "::into", intovec, ck, w, nm + "::into", k)
    if nm == "BorrowedVecWriter":
        k = w.inherent("bytes_written")
        if k:
            ck.step(nm + "::bytes_written", written_count, ck, w, nm + "::bytes_written", k)


def into(ck, w):
    for t, s in (("std::convert::Into", w.ty), ("std::convert::From", None)):
        for i in ck.impls(t):
            if s and i["self"] == s or s is None and i["self"] == "std::vec::Vec<u8>":
                for m in ("into", "from"):
                    k = i["methods"].get(m, {}).get("key")
                    if k in ck.ip.raw:
                        return k
    ck.violation("anchor:VecWriter into Vec", "VecWriter can no longer be turned into its Vec")


def overlay(ck, st, D, o, B, grow):
    """D with B laid over it at o"""
    ip = ck.ip
    head = ip.seqslice(st, D, ZERO, o)
    segs = tuple(head.segs) + tuple(B.segs)
    if not grow:
        segs += tuple(ip.seqslice(st, D, o + B.len, D.len - o - B.len).segs)
    return Seq("u8", segs)


def write(ck, w, what, k, n):
    cnt, u0 = 0, ck.nund
    for a, st, D, o, ro in w.each(what, k):
        if n == "write":
            B = Seq("u8", [(ONE, "e", a[1])])
        else:
            B = ck.ip.models.seqof(st, a[1])
        c = B.len
        st = st.copy()
        if not st.assume(ge(C((1 << 63) - 1), o + c)):
            continue
        fits = ge(D.len, o + c)
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            cnt += is_ok(q.val) is True
            can = (not ro) if not w.fixed else fits
            result_is(ck, "result", what, q, can, "it is not read-only" if not w.fixed else "the array has room", [(True, ["UnableToWriteData"])])
            if is_ok(q.val):
                for f, grow in ((fits, False), (negc(fits), True)):
                    z = q.st.copy()
                    if z.assume(f):
                        ck.cases(z, lambda s: w.same(what, s, a[0], overlay(ck, s, D, o, B, grow), o + c, ro))
            else:
                w.same(what + "/refused", q.st, a[0], D, o, ro)
    ck.some(what, cnt, u0, "%s can succeed" % what)


def query(ck, w, what, k, n):
    for a, st, D, o, ro in w.each(what, k):
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            if n == "available":
                ck.ob("value", what, q.st, eq(q.val, D.len - o), "%s is the room left in the array" % what)
            elif n == "vec":
                same_seq(ck, "value", what, q.st, ck.ip.models.seqof(q.st, q.val), D, "the result of %s" % what)
            elif n == "can_write":
                result_is(ck, "result", what, q, not ro, "it is not read-only", [(True, ["UnableToWriteData"])])
            elif n == "set_read_only":
                for c, b in ((as_bool(q.st, a[1]), True), (negc(as_bool(q.st, a[1])), False)):
                    z = q.st.copy()
                    if z.assume(c):
                        w.same(what, z, a[0], D, o, b)
                continue
            elif n == "set_offset":
                for s, x in splitmin(q.st, a[1], D.len):
                    w.same(what, s, a[0], D, x, ro)
                continue
            w.same(what, q.st, a[0], D, o, ro)


EMPTY = Seq("u8", ())


def ctor(ck, w, what, k, n):
    a = ck.args(k)
    st = State()
    src = ck.ip.models.seqof(st, a[0]) if w.name != "VecWriter" else EMPTY
    st.assume(ge(C((1 << 63) - 1), src.len))
    if n == "with_capacity":
        st.assume(ge(C((1 << 63) - 1), a[0]))
    for o in no_panic(ck, "new", what, ck.run(what, k, a, st) or []):
        s = o.st.copy()
        cell = ck.ip.newcell(s, o.val, w.ty, "obj")
        for z, x in splitmin(s, a[1], src.len) if n == "with_offset" else [(s, ZERO)]:
            w.same(what, z, Ptr(cell), src, x, None if w.fixed else False)


def intovec(ck, w, what, k):
    a = ck.args(k)
    st = State()
    cell = ck.ip.newcell(st, a[0], w.ty, "obj")
    for s, D, o, r in w.look(what, Ptr(cell), st):
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, s) or []):
            same_seq(ck, "value", what, q.st, ck.ip.models.seqof(q.st, q.val), D, "the vector a VecWriter turns into")


def written_count(ck, w, what, k):
    """from a new writer: bytes_written is the bytes written since, never negative"""
    for n, over in (("new", None), ("with_offset", None)):
        kc = w.inherent(n)
        if kc is None:
            continue
        a = ck.args(kc)
        st = State()
        src = ck.ip.models.seqof(st, a[0])
        for o in ck.run(what + "/" + n, kc, a, st) or []:
            if o.kind == "panic":
                continue
            s = o.st.copy()
            p = Ptr(ck.ip.newcell(s, o.val, w.ty, "obj"))
            for s0, o0 in obs(ck, "observe", what + "/get_offset", w.off, [p], s):
                kw = ck.manchor(WR, w.ty, "write_all")
                ks = w.inherent("set_offset")
                if not kw or not ks:
                    return
                b = ck.args(kw)
                s0.assume(ge(C((1 << 63) - 1), o0 + ck.ip.models.seqof(s0, b[1]).len))
                for q in no_panic(ck, "panic", what + "/write_all", ck.run(what + "/write_all", kw, [p, b[1]], s0) or []):
                    if is_ok(q.val):
                        for r in no_panic(ck, "panic", what, ck.run(what, k, [p], q.st) or []):
                            ck.ob("value", what, r.st, eq(r.val, ck.ip.models.seqof(r.st, b[1]).len), "%s is the number of bytes written" % what)
                c = ck.args(ks)
                for q in no_panic(ck, "panic", what + "/set_offset", ck.run(what + "/set_offset", ks, [p, c[1]], s0) or []):
                    no_panic(ck, "panic", what + "/moved", ck.run(what + "/moved", k, [p], q.st) or [])
