"""C13: the in-memory readers."""
from .tags import *

RD, MR = "io::Reader", "io::array::MemoryReader"
TYPES = ["io::array::ByteArrayReader", "io::array::VecReader"]


def main():
    ck = Check("C13", "in-memory readers")
    ck.go(check)
    return ck.finish(
        "Every method of ByteArrayReader and VecReader (inherent, Reader and MemoryReader, provided methods included) is abstractly "
        "interpreted on a generic object with a generic buffer/count, the representation being observed only through as_slice(), "
        "len() and offset(). Each is compared with the model (data D, offset o <= |D|): the result, the bytes delivered, the new "
        "offset, and that D and, on failure, o are unchanged. Constructors are shown to establish o <= |D| and all the methods to "
        "keep it; the fields are private.", floor=120)


class Obj:
    """a memory reader seen through its observers"""
    def __init__(self, ck, ty):
        self.ck = ck
        self.name = ty.split("::")[-1]
        ts = [i["self"] for i in ck.impls(RD) if i["self"].split("<")[0] == CR + ty]
        if not ts:
            ck.violation("anchor:Reader for " + ty, "%s no longer implements Reader" % ty)
            raise Undecided("no impl")
        self.ty = ts[0]
        self.len = ck.manchor(MR, self.ty, "len")
        self.off = ck.manchor(MR, self.ty, "offset")
        self.slice = self.inherent("as_slice")
        if None in (self.len, self.off, self.slice):
            raise Undecided("an observer is gone")

    def inherent(self, n):
        for it in self.ck.items:
            if it.get("impl_self") and it["impl_self"].split("<")[0] == self.ty.split("<")[0] and it["name"] == n and not it.get("impl_trait"):
                if it["key"] in self.ck.ip.raw:
                    return it["key"]
        self.ck.violation("anchor:%s::%s" % (self.name, n), "the method %s::%s is gone" % (self.name, n))
        return None

    def look(self, what, p, st):
        """[(state, data, offset)]; also len() = |data| """
        ck = self.ck
        out = []
        for s, d in obs(ck, "observe", what + "/as_slice", self.slice, [p], st):
            D = ck.ip.models.seqof(s, d)
            for s2, n in obs(ck, "observe", what + "/len", self.len, [p], s):
                ck.ob("observe", what + "/len", s2, eq(n, D.len), "%s: len() is the length of the data" % what)
                for s3, o in obs(ck, "observe", what + "/offset", self.off, [p], s2):
                    out.append((s3, D, o))
        return out

    def each(self, what, key, st=None, **over):
        """generic objects under the invariant: yields (args, state, D, o)"""
        a = self.ck.args(key, **over)
        for s, D, o in self.look(what, a[0], st or State()):
            s = s.copy()
            if s.assume(ge(D.len, o)) and s.assume(ge(C((1 << 63) - 1), D.len)):
                yield a, s, D, o

    def unchanged(self, what, st, p, D, o):
        """[states]: data as before and offset as given"""
        ck = self.ck
        for s, D2, o2 in self.look(what, p, st):
            ck.ob("offset", what, s, eq(o2, o), "%s leaves the offset where the model has it" % what)
            same_seq(ck, "data", what, s, D2, D, "the data after %s" % what)
            ck.ob("invariant", what, s, ge(D2.len, o2), "%s keeps the offset within the data" % what)


def check(ck):
    for ty in TYPES:
        private(ck, ty)
        ck.step(ty, reader, ck, ty)


def reader(ck, ty):
    ob = Obj(ck, ty)
    nm = ob.name
    m = lambda t, n: ck.manchor(t, ob.ty, n)
    ck.step(nm + "::new", new, ck, ob, ob.inherent("new"))
    for n, f in (("read", read), ("read_all", read_all), ("skip", skip), ("skip_u64", skip)):
        k = m(RD, n)
        if k:
            ck.step(nm + "::" + n, f, ck, ob, nm + "::" + n, k)
    for n in ("available", "is_empty", "set_offset", "assert_can_read"):
        k = m(MR, n)
        if k:
            ck.step(nm + "::" + n, query, ck, ob, nm + "::" + n, k, n)
    k = ob.inherent("can_read")
    if k:
        ck.step(nm + "::can_read", query, ck, ob, nm + "::can_read", k, "assert_can_read")
    if nm == "VecReader":
        k = ob.inherent("vec")
        if k:
            ck.step(nm + "::vec", query, ck, ob, nm + "::vec", k, "vec")


def new(ck, ob, k):
    if k is None:
        return
    a = ck.args(k)
    st = State()
    src = ck.ip.models.seqof(st, a[0])
    st.assume(ge(C((1 << 63) - 1), src.len))
    for o in no_panic(ck, "new", ob.name + "::new", ck.run(ob.name + "::new", k, a, st) or []):
        s = o.st.copy()
        cell = ck.ip.newcell(s, o.val, ob.ty, "obj")
        ob.unchanged(ob.name + "::new", s, Ptr(cell), src, ZERO)


READ_ERRS = lambda avail: [(eq(avail, ZERO), ["EndOfData"]), (ge(avail, ONE), ["UnableToReadData"])]


def read(ck, ob, what, k):
    n, u0 = 0, ck.nund
    for a, st, D, o in ob.each(what, k):
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            n += is_ok(q.val) is True
            result_is(ck, "result", what, q, ge(D.len, o + 1), "a byte is left", [(True, ["EndOfData"])])
            if is_ok(q.val):
                ck.cases(q.st, lambda s: ck.ob("value", what, s, eq(q.val.fields[0], ck.ip.seqget(s, D, o)),
                                               "%s returns the byte at the offset" % what) and None)
            ob.unchanged(what, q.st, a[0], D, o + 1 if is_ok(q.val) else o)
    ck.some(what, n, u0, "%s can succeed" % what)


def read_all(ck, ob, what, k):
    n, u0 = 0, ck.nund
    for a, st, D, o in ob.each(what, k):
        buf = ck.ip.models.seqof(st, a[1])
        c = buf.len
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            n += is_ok(q.val) is True
            result_is(ck, "result", what, q, ge(D.len, o + c), "enough bytes are left", READ_ERRS(D.len - o))
            if is_ok(q.val):
                got = ck.ip.models.seqof(q.st, a[1])
                ck.cases(q.st, lambda s: same_seq(ck, "value", what, s, got, ck.ip.seqslice(s, D, o, c), "the buffer filled by %s" % what))
            ob.unchanged(what, q.st, a[0], D, o + c if is_ok(q.val) else o)
    ck.some(what, n, u0, "%s can succeed" % what)


def skip(ck, ob, what, k):
    n, u0 = 0, ck.nund
    for a, st, D, o in ob.each(what, k):
        c = a[1]
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            n += is_ok(q.val) is True
            result_is(ck, "result", what, q, ge(D.len, o + c), "enough bytes are left", READ_ERRS(D.len - o))
            ob.unchanged(what, q.st, a[0], D, o + c if is_ok(q.val) else o)
    ck.some(what, n, u0, "%s can succeed" % what)


def query(ck, ob, what, k, n):
    for a, st, D, o in ob.each(what, k):
        for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
            o2 = o
            if n == "available":
                ck.ob("value", what, q.st, eq(q.val, D.len - o), "%s is the number of bytes left" % what)
            elif n == "is_empty":
                same_bool(ck, "value", what, q.st, q.val, eq(D.len, ZERO), "%s says whether there is no data" % what)
            elif n == "vec":
                same_seq(ck, "value", what, q.st, ck.ip.models.seqof(q.st, q.val), D, "the result of %s" % what)
            elif n == "assert_can_read":
                c = a[1]
                result_is(ck, "result", what, q, disj([eq(c, ZERO), ge(D.len, o + c)]), "enough bytes are left", READ_ERRS(D.len - o))
            elif n == "set_offset":
                o2 = None
                for s in splitmin(q.st, a[1], D.len):
                    ob.unchanged(what, s[0], a[0], D, s[1])
            if o2 is not None:
                ob.unchanged(what, q.st, a[0], D, o2)


def splitmin(st, x, y):
    out = []
    for c, v in ((ge(y, x), x), (lt(y, x), y)):
        s = st.copy()
        if s.assume(c):
            out.append((s, v))
    return out
