"""C01: the ILInt codec is the specified bijection."""
from .common import *

E = "ilint::"


def main():
    ck = Check("C01", "ILInt codec")
    ck.go(check)
    return ck.finish(
        "Abstract interpretation (linear + bit-slice domain, trace partitioning, loops unrolled or summarised) of every "
        "unsigned function of the ilint module, once per encoded-length class of the specification. For each class the "
        "length, every byte written, every byte consumed and the value returned are compared, as terms over the symbolic "
        "input, with the ILInt specification; error outcomes must be exactly the specified ones.", floor=60)


def check(ck):
    ck.step("size", size, ck, "encoded_size", lambda v, n: None)
    for f in (enc, dsize, body, frombytes, dec):
        ck.step(f.__name__, f, ck)


def size(ck, name, _):
    k = ck.anchor(E + name)
    if not k:
        return
    for n, lo, hi in RANGES:
        a = ck.args(k)
        outs = ck.run(name, k, a, ranged(a[0], lo, hi))
        for o in no_panic(ck, "size", "%s/%d" % (name, n), outs or []):
            ck.ob("size", "%s/%d" % (name, n), o.st, eq(o.val, C(n)), "values in [%#x,%#x] have encoded size %d" % (lo, hi, n))


KINDS = {"IOError": "IOError", "ValueOverflow": "ValueOverflow", "InvalidFormat": "InvalidFormat"}


def kind_ok(ck, o, kinds, want):
    """the error kind of outcome o is the one `kinds` prescribes (None: any)"""
    return kinds[want] is None or err_name(ck.ip, o.val) in (kinds[want], "?")


def enc(ck, nm="encode", k=None, vi=0, kinds=KINDS):
    k = k or ck.anchor(E + "encode")
    if not k:
        return
    for n, lo, hi in RANGES:
        a = ck.args(k)
        v = a[vi]
        outs = ck.run(nm, k, a, ranged(v, lo, hi))
        oks = 0
        for o in no_panic(ck, "encode", nm + "/%d" % n, outs or []):
            fails = failed(o.st, "wr")
            if is_ok(o.val):
                oks += 1
                ck.path_ob("encode", nm + "/%d/err" % n, o.st, not fails, nm + " does not report success after a failed write")
                want = [v] if n == 1 else [C(0xF8 + n - 2)] + body_bytes(o.st, v, n - 1)
                check_bytes(ck, "encode", nm + "/%d" % n, o.st, written(o.st), want, "the encoding of a value in [%#x,%#x]" % (lo, hi))
            else:
                ck.path_ob("encode", nm + "/%d/ok" % n, o.st, bool(fails), nm + " fails only when the writer fails")
                ck.path_ob("encode", nm + "/%d/kind" % n, o.st, kind_ok(ck, o, kinds, "IOError"), "a writer failure is reported as an I/O error")
        if outs is not None:
            ck.fact("encode", nm + "/%d/some" % n, oks > 0, nm + " can succeed for values in [%#x,%#x]" % (lo, hi))


def dsize(ck):
    k = ck.anchor(E + "decoded_size")
    if not k:
        return
    for lo, hi in [(0, 0xF7)] + [(h, h) for h in range(0xF8, 0x100)]:
        a = ck.args(k)
        outs = ck.run("decoded_size", k, a, ranged(a[0], lo, hi))
        want = 1 if hi < 0xF8 else lo - 0xF6
        for o in no_panic(ck, "decoded_size", "decoded_size/%x" % lo, outs or []):
            ck.ob("decoded_size", "decoded_size/%x" % lo, o.st, eq(o.val, C(want)), "header %#x announces %d byte(s)" % (lo, want))


def value_ok(ck, rule, key, outs, bs, get=lambda v: v, extra=None, kinds=KINDS):
    """outcomes of decoding the body bytes bs: value iff it fits, ValueOverflow otherwise"""
    x = from_be(bs) + 0xF8
    seen = 0
    for o in outs:
        if is_ok(o.val):
            seen += 1
            ck.ob(rule, key + "/fits", o.st, ge(C(U64), x), "a value above 2^64-1 is rejected")
            ck.ob(rule, key + "/value", o.st, eq(get(o.val.fields[0]), x), "the decoded value is 0xF8 + the big-endian body")
            if extra:
                extra(o)
        else:
            ck.ob(rule, key + "/overflow", o.st, ge(x, C(U64 + 1)), "decoding fails only on overflow")
            ck.path_ob(rule, key + "/overflow-kind", o.st, kind_ok(ck, o, kinds, "ValueOverflow"), "overflow is reported as %s" % kinds["ValueOverflow"])
    ck.fact(rule, key + "/some", seen > 0, "a body of %d byte(s) can be decoded" % len(bs))


def body(ck):
    k = ck.anchor(E + "decode_body")
    if not k:
        return
    for n in range(0, 10):
        a = ck.args(k)
        p = a[0]
        st = State()
        nm = p.rng[1]
        if n < 9:
            st.assume(eq(nm, C(n)))
        else:
            st.assume(ge(nm, C(9)))
        outs = ck.run("decode_body", k, a, st)
        if outs is None:
            continue
        outs = no_panic(ck, "decode_body", "decode_body/%d" % n, outs)
        if n in (0, 9):
            for o in outs:
                ck.path_ob("decode_body", "decode_body/%d" % n, o.st, is_ok(o.val) is False and err_name(ck.ip, o.val) in ("InvalidFormat", "?"),
                           "a body of %s bytes is rejected as malformed" % ("0" if n == 0 else "more than 8"))
            continue
        name = p.cell[1]
        bs = [A(atom("el", (name, C(i)), 0, 255)) for i in range(n)]
        value_ok(ck, "decode_body", "decode_body/%d" % n, outs, bs)


def headers():
    yield 0, 0xF7, 1
    for h in range(0xF8, 0x100):
        yield h, h, h - 0xF6


def frombytes(ck):
    k = ck.anchor(E + "decode_from_bytes")
    if not k:
        return
    a = ck.args(k)
    st = State()
    st.assume(eq(a[0].rng[1], ZERO))
    for o in no_panic(ck, "decode_from_bytes", "decode_from_bytes/empty", ck.run("decode_from_bytes", k, a, st) or []):
        ck.path_ob("decode_from_bytes", "decode_from_bytes/empty", o.st, is_ok(o.val) is False, "no bytes: not a value")
    for lo, hi, n in headers():
        for short in (False, True):
            a = ck.args(k)
            p = a[0]
            st = State()
            h = A(atom("el", (p.cell[1], ZERO), 0, 255))
            st.assume(ge(p.rng[1], C(1)))
            if short:
                if not st.assume(ge(C(n - 1), p.rng[1])):
                    continue
            else:
                st.assume(ge(p.rng[1], C(n)))
            st.assume(ge(h, C(lo)))
            st.assume(ge(C(hi), h))
            key = "decode_from_bytes/%x%s" % (lo, "/short" if short else "")
            outs = ck.run("decode_from_bytes", k, a, st)
            if outs is None:
                continue
            outs = no_panic(ck, "decode_from_bytes", key, outs)
            if short:
                for o in outs:
                    ck.path_ob("decode_from_bytes", key, o.st, is_ok(o.val) is False, "a truncated value is rejected")
                continue
            if n == 1:
                for o in outs:
                    if ck.path_ob("decode_from_bytes", key, o.st, is_ok(o.val), "a one byte value decodes"):
                        ck.ob("decode_from_bytes", key + "/value", o.st, eq(o.val.fields[0].fields[0], h), "a one byte value is itself")
                        ck.ob("decode_from_bytes", key + "/used", o.st, eq(o.val.fields[0].fields[1], ONE), "one byte is used")
                continue
            bs = [A(atom("el", (p.cell[1], C(i)), 0, 255)) for i in range(1, n)]
            value_ok(ck, "decode_from_bytes", key, outs, bs, lambda v: v.fields[0],
                     lambda o: ck.ob("decode_from_bytes", key + "/used", o.st, eq(o.val.fields[0].fields[1], C(n)), "%d bytes are used" % n))


def dec(ck, nm="decode", k=None, kinds=KINDS):
    k = k or ck.anchor(E + "decode")
    if not k:
        return
    for lo, hi, n in headers():
        a = ck.args(k)
        r = a[0]
        st = State()
        h = stream_byte(r, 0)
        st.assume(ge(h, C(lo)))
        st.assume(ge(C(hi), h))
        key = nm + "/%x" % lo
        outs = ck.run(nm, k, a, st)
        if outs is None:
            continue
        outs = no_panic(ck, "decode", key, outs)
        fin = []
        for o in outs:
            bad = failed(o.st, "rd")
            if bad:
                ck.path_ob("decode", key + "/io", o.st, is_ok(o.val) is False and kind_ok(ck, o, kinds, "IOError"),
                           "a reader failure is reported as an I/O error")
                continue
            fin.append(o)
            ck.ob("decode", key + "/consumed", o.st, eq(consumed(ck, o.st, r), C(n)), "header %#x: exactly %d byte(s) are consumed" % (lo, n))
        if n == 1:
            for o in fin:
                if ck.path_ob("decode", key + "/ok", o.st, is_ok(o.val), "a one byte value decodes"):
                    ck.ob("decode", key + "/value", o.st, eq(o.val.fields[0], h), "a one byte value is itself")
            ck.fact("decode", key + "/some", bool(fin), "one byte values decode")
        else:
            value_ok(ck, "decode", key, fin, [stream_byte(r, i) for i in range(1, n)], kinds=kinds)
