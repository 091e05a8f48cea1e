"""C27: the wire format of every tag."""
from .tags import *
from .c05 import observers, signs
import cuts
import fw
from models import es as es_, mkprod, mksum
from terms import uid
from values import *

INTS = {"ILInt8Tag": (1, True), "ILUInt8Tag": (1, False), "ILInt16Tag": (2, True), "ILUInt16Tag": (2, False), "ILInt32Tag": (4, True),
        "ILUInt32Tag": (4, False), "ILInt64Tag": (8, True), "ILUInt64Tag": (8, False), "ILBin32Tag": (4, False), "ILBin64Tag": (8, False)}
RUNS = {"ILByteArrayTag": None, "ILStringTag": None, "ILBigIntTag": None, "ILRawTag": None, "ILBin128Tag": 16}
PARTS = ("major", "minor", "revision", "build")
TYPED = list(INTS) + list(RUNS) + ["ILNullTag", "ILBoolTag", "ILILInt64Tag", "ILSignedILInt64Tag", "ILBigDecTag", "ILILIntArrayTag", "ILOIDTag",
                                   "ILTagArrayTag", "ILTagSeqTag", "ILRangeTag", "ILVersionTag"]
DICTS = ("ILDictTag", "ILStrDictTag")       # how they are written is C12
ARRAYS = ("ILILIntArrayTag", "ILOIDTag", "ILTagArrayTag")


def main():
    ck = Check("C27", "wire format")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "serialize and serialize_value of every tag type are abstractly interpreted on generic contents and the bytes written are compared, as "
        "sequences of terms, with the format of that type computed from what the public accessors return: id and size as ILInts (no size for "
        "implicit ids) before the value bytes; numbers big-endian, byte runs as they are, ILInts canonical, counts before elements. In the other "
        "direction deserialize_value of every type without nested elements is interpreted on any bytes and the accessors of the tag it leaves "
        "are compared with what the format says these bytes mean, and for arrays and dictionaries the number of elements read with the count "
        "their value began with.", floor=180)


class Tag:
    def __init__(self, ck, name, ty, ms):
        self.ck, self.name, self.ty, self.ms = ck, name, ty, ms
        self.obs = dict(observers(ck, ty))

    def get(self, st, p, m):
        """[(state, value)] of an accessor"""
        k = self.obs.get(m)
        if k is None:
            self.ck.violation("anchor:%s::%s" % (self.name, m), "%s has no accessor %s()" % (self.name, m))
            return []
        return [(o.st, o.val) for o in self.ck.run("%s::%s" % (self.name, m), k, [p], st) or [] if o.kind != "panic"]

    def each(self, st, p, ms, f):
        """f(state, values of the accessors)"""
        alts = [(st, [])]
        for m in ms:
            alts = [(s2, vs + [v]) for s, vs in alts for s2, v in self.get(s, p, m)]
        for s, vs in alts:
            self.ck.cases(s, lambda z, vs=vs: f(z, *vs) and None)


def check(ck):
    seen = set()
    for name, ty, ms in tagtypes(ck):
        t = Tag(ck, name, ty, ms)
        base = name.split("<")[0]
        ks = [method(ck, name, ms, m) for m in ("serialize_value", "serialize", "deserialize_value")]
        if None in ks:
            continue
        seen.add(base)
        ck.step(name + "/frame", frame, t, ks[0], ks[1])
        if base in TYPED:
            ck.step(name + "/write", wvalue, t, ks[0])
            if base not in ARRAYS + ("ILTagSeqTag",):
                ck.step(name + "/read", rvalue, t, ks[2])
        if base in ARRAYS + DICTS:
            ck.step(name + "/count", rcount, t, ks[2])
    k = ck.anchor("tags::standard::explicit::serialize_string_tag_from_value")
    if k:
        ck.step("string tag", strtag, ck, k)
    for n in TYPED:
        if n not in seen:
            ck.violation("anchor:" + n, "the tag type %s is gone" % n)


def ilint(st, v):
    return (st.norm(es_(v)), "ilint", v)


def frame(t, kv, ks):
    """id, size unless implicit, value"""
    ck = t.ck
    a = ck.args(kv)
    n, u0 = 0, ck.nund
    for o in ck.run(t.name + "::serialize_value", kv, a) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        w = loops.normv(o.st, written(o.st, (a[1].cell, a[1].path)))
        s = o.st.copy()
        s.log = ()
        kid = t.ms.get("id")
        for i in ck.run(t.name + "::id", kid, a[:1], s) or []:
            for big in (False, True):
                z = i.st.copy()
                if i.kind == "panic" or not z.assume(ge(i.val, C(16)) if big else ge(C(15), i.val)):
                    continue
                b = ck.args(ks, a0=a[0])
                for q in ck.run(t.name + "::serialize", ks, b, z) or []:
                    if q.kind == "panic" or is_ok(q.val) is not True:
                        continue
                    n += 1
                    wv = loops.normv(q.st, w)
                    segs = [ilint(q.st, i.val)] + ([ilint(q.st, wv.len)] if big else []) + list(wv.segs)
                    same(ck, "frame", t.name, q.st, written(q.st, (b[1].cell, b[1].path)), Seq("u8", segs),
                         "what %s::serialize writes (id%s and value)" % (t.name, ", size" if big else ""))
    ck.some("frame/" + t.name, n, u0, "%s can be serialised" % t.name)


def same(ck, rule, key, st, got, want, what):
    got, want = loops.normv(st, got), loops.normv(st, want)
    if loops.sameseq(st, got, want):
        ck._count(rule, True)
    elif not elements_differ(ck, rule, key, st, got, want, what):
        same_seq(ck, rule, key, st, got, want, what)


def strtag(ck, k):
    """the string tag of a text: id 17, length, bytes"""
    a = ck.args(k)
    n, u0 = 0, ck.nund
    v, w = (a[1], a[0]) if "Writer" in ck.ip.fn(k).locals[1][0] else a
    for o in ck.run("serialize_string_tag_from_value", k, a) or []:
        if o.kind != "panic" and is_ok(o.val) is True:
            n += 1
            q = ck.ip.models.seqof(o.st, v)
            same(ck, "write", "string tag", o.st, written(o.st, (w.cell, w.path)), Seq("u8", [(ONE, "e", C(17)), ilint(o.st, q.len)] + list(q.segs)), "an embedded string tag")
    ck.some("write/string tag", n, u0, "a string tag can be written")


def elements_differ(ck, rule, key, st, got, want, what):
    """repetitions over nested tags are compared by which of the tags is written at a generic place"""
    gs, ws = ([x for x in q.segs if x[1] == "star"] for q in (got, want))
    if len(gs) != 1 or len(ws) != 1 or len(gs[0][4]) != 1 or len(ws[0][4]) != 1:
        return False
    i = A(atom("in", (("w", uid()), "i"), 0, U64))
    g, w = (rewrite(x[4], {x[3]: i})[0] for x in (gs[0], ws[0]))
    if g[1] != "ser" or w[1] != "ser" or g[3:] != w[3:] or not (isinstance(g[2], tuple) and isinstance(w[2], tuple) and len(g[2]) == len(w[2]) == 3 and g[2][:2] == w[2][:2]):
        return False
    z = st.copy()
    if not z.assume(ge(ws[0][2] - 1, i)) or not z.assume(eq(gs[0][2], ws[0][2])) or not isinstance(g[2][2], L) or not isinstance(w[2][2], L):
        return False
    return ck.ob(rule, key + "/elements", z, eq(g[2][2], w[2][2]), "%s has the elements in order" % what) is False


def layout(t, st, p, f):
    """f(state, the value bytes the format assigns to the contents of the tag)"""
    ck, n = t.ck, t.name
    m = ck.ip.models

    def num(s, v, w):
        return [(ONE, "e", b) for b in be_bytes(s, v, w)]

    def run(s, v):
        return list(m.seqof(s, v).segs)

    if n in INTS:
        t.each(st, p, ["value"], lambda s, v: f(s, num(s, v, INTS[n][0])))
    elif n in RUNS:
        t.each(st, p, ["value"], lambda s, v: f(s, run(s, v)))
    elif n == "ILNullTag":
        f(st, [])
    elif n == "ILBoolTag":
        def bit(s, v):
            for x in (0, 1):
                z = s.copy()
                if z.assume(as_bool(z, v) if x else negc(as_bool(z, v))):
                    f(z, [(ONE, "e", C(x))])
        t.each(st, p, ["value"], bit)
    elif n == "ILILInt64Tag":
        t.each(st, p, ["value"], lambda s, v: f(s, [ilint(s, v)]))
    elif n == "ILSignedILInt64Tag":
        def sign(s, v):
            for neg in (False, True):
                z = s.copy()
                if z.assume(ge(C(-1), v) if neg else ge(v, ZERO)):
                    f(z, [ilint(z, z.norm(-2 * v - 1 if neg else 2 * v))])
        t.each(st, p, ["value"], sign)
    elif n == "ILBigDecTag":
        t.each(st, p, ["scale", "value"], lambda s, c, v: f(s, num(s, c, 4) + run(s, v)))
    elif n == "ILRangeTag":
        t.each(st, p, ["start", "count"], lambda s, b, c: f(s, [ilint(s, b)] + num(s, c, 2)))
    elif n == "ILVersionTag":
        t.each(st, p, PARTS, lambda s, *vs: f(s, [g for v in vs for g in num(s, v, 4)]))
    else:
        t.each(st, p, ["value"], lambda s, v: f(s, elements(ck, s, n, v)))


def elements(ck, st, n, v):
    """count (not for the sequence) and elements"""
    m = ck.ip.models
    q = m.seqof(st, v)
    bv = atom("bv", (("w", uid()),), 0, 1 << 62)
    z = st.copy()
    if not z.assume(ge(q.len, A(bv) + 1)):
        star = []
    else:
        x = ck.ip.seqget(z, q, A(bv))
        g = ilint(z, x) if isinstance(x, L) else m.serseg(z, x, m.tagsize(z, x), "tag")
        star = [(mksum(q.len, bv, g[0]), "star", q.len, bv, (g,))]
    return ([] if n == "ILTagSeqTag" else [ilint(st, q.len)]) + star


def wvalue(t, k):
    ck = t.ck
    a = ck.args(k)
    n, u0 = 0, ck.nund
    for o in [o for st in signs(ck, a[0]) for o in ck.run(t.name + "::serialize_value", k, a, st) or []]:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        n += 1
        w = written(o.st, (a[1].cell, a[1].path))
        s = o.st.copy()
        s.log = ()
        layout(t, s, a[0], lambda z, segs: same(ck, "write", t.name, z, w, Seq("u8", segs), "the value %s writes" % t.name))
    ck.some("write/" + t.name, n, u0, "%s can write its value" % t.name)


def signed(st, p, j, w):
    """cases of the sign of the big-endian number in bytes j.. of a stream: [(state, value)]"""
    out = []
    for lo, base in ((0, 0), (128, -(1 << (8 * w)))):
        z = st.copy()
        z._sub1(stream_byte(p, j).single(), A(atom("in", (("w", uid()), "q"), 0, 127)) + lo)
        out.append((z, z.norm(from_be([stream_byte(p, j + i) for i in range(w)]) + base)))
    return out


def rvalue(t, k):
    """what the accessors return after any bytes were read as a value"""
    ck, n = t.ck, t.name.split("<")[0]
    a = ck.args(k)
    size, r = [x for x in a if isinstance(x, L)][0], a[3]
    cnt, u0 = [0], ck.nund
    sn = streamname(r)
    start = State()
    start.assume(ge(C(1 << 29), size))

    def after(st, f):
        """f(state) for each way of reading the value"""
        for o in ck.run(t.name + "::deserialize_value", k, a, st) or []:
            if o.kind != "panic" and is_ok(o.val) is True:
                cnt[0] += 1
                f(o.st)

    def is_num(s, m, want):
        t.each(s, a[0], [m], lambda z, v: ck.ob("read", "%s::%s" % (n, m), z, eq(v, z.norm(want)), "%s() of a %s is the number its bytes denote" % (m, n)))

    def is_run(s, m, off, ln):
        t.each(s, a[0], [m], lambda z, v: same(ck, "read", "%s::%s" % (n, m), z, ck.ip.models.seqof(z, v), stream_seq(r, off, ln),
                                               "%s() of a %s" % (m, n)))

    def numbers(parts):
        """parts: (accessor, offset, width, signed); one sign at a time"""
        for i, (m, j, w, sg) in enumerate(parts):
            for st, want in signed(start, r, j, w) if sg else [(start, from_be([stream_byte(r, j + x) for x in range(w)]))]:
                after(st, lambda s, m=m, want=want: is_num(s, m, want))

    if n in INTS:
        numbers([("value", 0) + INTS[n]])
    elif n == "ILVersionTag":
        numbers([(m, 4 * i, 4, True) for i, m in enumerate(PARTS)])
    elif n in RUNS:
        after(start, lambda s: is_run(s, "value", ZERO, C(16) if RUNS[n] else size))
    elif n == "ILBoolTag":
        after(start, lambda s: t.each(s, a[0], ["value"], lambda z, v: same_bool(ck, "read", n, z, v, eq(stream_byte(r, 0), ONE), "value() of an %s is whether its byte is 1" % n)))
    elif n == "ILILInt64Tag":
        after(start, lambda s: is_num(s, "value", dec(s, sn)))
    elif n == "ILSignedILInt64Tag":
        for neg in (0, 1):
            st = start.copy()
            q = A(atom("in", (("w", uid()), "q"), 0, (1 << 63) - 1))
            cuts.clen(st, sn, ZERO)
            st._sub1(A(atom("fn", ("dec", sn, ZERO), 0, U64)).single(), 2 * q + neg)
            after(st, lambda s, q=q, neg=neg: is_num(s, "value", -q - 1 if neg else q))
    elif n == "ILBigDecTag":
        numbers([("scale", 0, 4, True)])
        after(start, lambda s: is_run(s, "value", C(4), size - 4))
    elif n == "ILRangeTag":
        def rng(s):
            h = cuts.clen(s, sn, ZERO)
            is_num(s, "start", dec(s, sn))
            is_num(s, "count", from_be([A(atom("el", (sn, s.norm(h + i)), 0, 255)) for i in range(2)]))
        after(start, rng)
    else:
        after(start, lambda s: ck._count("read", True))
    ck.some("read/" + n, cnt[0], u0, "%s can read a value" % n)


def many(st, kind, log=None):
    """how many events of a kind succeeded on a path"""
    n = ZERO
    for e in st.log if log is None else log:
        if e.kind == "star":
            ns = {many(st, kind, b) for b in e.bodies}
            if len(ns) > 1:
                raise GiveUp("iterations that differ")
            m = ns.pop() if ns else ZERO
            n = n + (mkprod(e.count, m) if m.const is not None else mksum(e.count, e.bv, m))
        elif e.kind == kind and e.ok:
            n = n + 1
    return n


def rcount(t, k):
    """what was read begins with the number of elements that follow it"""
    ck, n = t.ck, t.name.split("<")[0]
    a = ck.args(k)
    size, r = [x for x in a if isinstance(x, L)][0], a[3]
    sn = streamname(r)
    start = State()
    start.assume(ge(C(1 << 29), size))
    cnt, u0 = 0, ck.nund
    for o in ck.run(t.name + "::deserialize_value", k, a, start) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        cnt += 1
        st = o.st
        if n in ARRAYS:
            t.each(st, a[0], ["value"], lambda z, v: ck.ob("count", n, z, eq(z.norm(ck.ip.models.seqof(z, v).len), dec(z, sn)),
                                                          "a %s has as many elements as the count it was read with" % n))
            continue
        try:
            got = st.norm(many(st, "subtag" if n == "ILDictTag" else "utf8"))
        except GiveUp as e:
            ck.undecided("count:" + n, str(e))
            continue
        if n == "ILDictTag":
            ck.ob("count", n, st, eq(got, dec(st, sn)), "as many tags are read into an %s as the count it was read with" % n)
        else:
            ck.ob("count", n, st, ge(got, dec(st, sn) * 2), "as many keys and values are read into an %s as the count it was read with" % n)
    ck.some("count/" + n, cnt, u0, "%s can read a value" % n)


def dec(st, sn):
    return st.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))
