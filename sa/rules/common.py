"""Specifications shared by the rules."""
import lin
from fw import *
from models import es_const

# ILInt: value ranges per encoded length (specification, not read from the code)
RANGES = [(1, 0, 0xF7)]
for _n in range(1, 9):
    _lo = RANGES[-1][2] + 1
    _hi = 0xF8 + (1 << (8 * _n)) - 1
    RANGES.append((_n + 1, _lo, min(_hi, U64)))


def ranged(v, lo, hi):
    st = State()
    assert st.assume(ge(v, C(lo))) and st.assume(ge(C(hi), v))
    return st


def body_bytes(st, v, n):
    """big-endian bytes of v - 0xF8 in n bytes"""
    b = st.bits(st.norm(v - 0xF8), 64)
    return [from_bits(b[8 * (n - 1 - j):8 * (n - j)]) for j in range(n)]


def be_bytes(st, v, n):
    b = st.bits(st.norm(v), 8 * n)
    return [from_bits(b[8 * (n - 1 - j):8 * (n - j)]) for j in range(n)]


def from_be(bs):
    x = ZERO
    for b in bs:
        x = x * 256 + b
    return x


def bytes_of(ck, st, seq, n):
    return [ck.ip.seqget(st, seq, C(k)) for k in range(n)]


def check_bytes(ck, rule, key, st, seq, want, what, where=None):
    """the byte sequence is exactly `want` (list of linear forms)"""
    if ck.ob(rule, key + "/len", st, eq(seq.len, C(len(want))), "%s is exactly %d byte(s) long" % (what, len(want)), where) is not True:
        return
    def each(s):
        got = bytes_of(ck, s, seq, len(want))
        for k, (g, w) in enumerate(zip(got, want)):
            ck.ob(rule, "%s/byte%d" % (key, k), s, eq(g, w), "byte %d of %s is as specified" % (k, what), where)
    ck.cases(st, each)


def same_seq(ck, rule, key, st, got, want, what, where=None):
    """two byte sequences are equal, elementwise at a generic index"""
    if ck.ob(rule, key + "/len", st, eq(got.len, want.len), "%s has the right length" % what, where) is not True:
        return
    ck.n += 1
    i = A(atom("in", (("w", ck.n), "i"), 0, U64))
    s2 = st.copy()
    if not s2.assume(ge(want.len - 1, i)):
        return
    ck.cases(s2, lambda s: ck.ob(rule, key + "/bytes", s, eq(ck.ip.seqget(s, got, i), ck.ip.seqget(s, want, i)),
                                 "%s is byte for byte as specified" % what, where) and None)


def as_writer(ck, what, k):
    """Writer::as_writer: the writer itself, unchanged"""
    a, st = ck.args(k), State()
    m = ck.ip.models
    for o in no_panic(ck, "self", what, ck.run(what, k, a, st) or []):
        p = m.flat(o.st, o.val) if isinstance(o.val, (Ptr, Opq)) else None
        ck.path_ob("self", what, o.st, isinstance(p, Ptr) and p.cell == a[0].cell and p.path == a[0].path, "%s is the writer itself" % what)
        ck.path_ob("self", what + "/alone", o.st, not o.st.log, "%s does nothing to the writer" % what)


def dead(st):
    """the facts of the path contradict each other"""
    return any(lin.refute(st.facts, f) for f in st.facts[-8:])


def no_panic(ck, rule, key, outs):
    """no outcome is a panic; returns the others"""
    res = []
    bad = 0
    for o in outs:
        if o.kind == "panic":
            if dead(o.st):
                continue
            bad += 1
            ck.path_ob(rule, "%s/panic:%s:%s" % (key, o.info["kind"], o.info["where"][0]), o.st, False,
                       "%s cannot panic (%s)" % (key, o.info["kind"]), o.info["where"])
        else:
            res.append(o)
    if not bad:
        unk = sorted({n[1] for o in outs for n in o.st.notes if isinstance(n, tuple) and n[0] == "opq"})
        ck._count(rule, not unk)
        if unk:
            ck.undecided("%s:%s" % (rule, key), "%s cannot panic [only if the calls the analysis does not model do not: %s]" % (key, ", ".join(unk)))
    return res


def streamname(p):
    return ("stream", p.cell, p.path)


def stream_byte(p, k):
    return A(atom("el", (("stream", p.cell, p.path), k if isinstance(k, L) else C(k)), 0, 255))


def reads(st, p):
    return [e for e in st.log if e.kind == "rd" and e.obj == (p.cell, p.path)]


def consumed(ck, st, p):
    return ck.ip.models.pos(st, p)


def stream_seq(p, off, n):
    """n bytes of the stream of reader p from offset off"""
    return Seq("u8", [(n, "o", streamname(p), off)])


def obs(ck, rule, what, key, args, st):
    """run an observer: [(state, value)] of its normal outcomes; panics are violations"""
    return [(o.st, o.val) for o in no_panic(ck, rule, what, ck.run(what, key, args, st) or [])]


def as_bool(st, v):
    return v if isinstance(v, (bool, Cond)) else ne(v, ZERO)


def same_bool(ck, rule, key, st, got, cond, msg):
    """the boolean `got` is exactly `cond`"""
    for c, s in ((True, cond), (False, negc(cond))):
        z = st.copy()
        if not z.assume(s):
            continue
        g = as_bool(z, got)
        ck.ob(rule, key, z, g if c else negc(g), msg)


def result_is(ck, rule, key, o, cond, msg, errs=()):
    """o.val is Ok exactly under `cond`; otherwise Err of the kind `errs` gives: [(condition, names)]"""
    if is_ok(o.val):
        return ck.ob(rule, key + "/ok", o.st, cond, "%s succeeds only if %s" % (key, msg))
    r = ck.ob(rule, key + "/err", o.st, negc(cond), "%s fails only unless %s" % (key, msg))
    e = err_name(ck.ip, o.val)
    for c, names in errs:
        z = o.st.copy()
        if z.assume(c):
            ck.ob(rule, "%s/%s" % (key, "/".join(names)), z, e in names, "%s fails with %s there, not %s" % (key, " or ".join(names), e))
    return r


def private(ck, path):
    """all fields of a type are private, so its invariant is the module's alone to keep"""
    for a in ck.dump["adts"]:
        if a["path"] == CR + path:
            bad = [f["name"] for f in a["fields"] if f["pub"]]
            ck.fact("private", path, not bad, "field %s of %s is public: its representation can be changed from outside" % (bad, path))
            return
    ck.violation("anchor:" + path, "the type %s is gone" % path)
