"""C02: the signed mapping is the zig-zag bijection and composes with the ILInt codec."""
from .common import *

E = "ilint::"
MIN = -(1 << 63)


def main():
    ck = Check("C02", "signed ILInt mapping")
    ck.go(check)
    return ck.finish(
        "Abstract interpretation of encode_sign/decode_sign per sign and parity class (results compared as linear/bit terms "
        "with v<0 ? -2v-1 : 2v and its inverse), of their composition in both orders, and of signed_encode/_decode/"
        "_encoded_size per encoded-length class against the ILInt specification applied to the mapped value.", floor=60)


def check(ck):
    for f in (maps, sized, enc, dec):
        ck.step(f.__name__, f, ck)


def maps(ck):
    e = ck.anchor(E + "encode_sign")
    d = ck.anchor(E + "decode_sign")
    if e:
        for neg in (0, 1):
            w = half(ck)
            outs = ck.run("encode_sign", e, [signed(w, neg)], State())
            key = "encode_sign/%s" % ("neg" if neg else "pos")
            for o in no_panic(ck, "encode_sign", key, outs or []):
                ck.ob("encode_sign", key, o.st, eq(o.val, w * 2 + neg),
                      "encode_sign maps %s values to %s" % (("negative", "-2v-1") if neg else ("non-negative", "2v")))
                back(ck, d, o, signed(w, neg))
    if d:
        for odd in (0, 1):
            w = half(ck)
            outs = ck.run("decode_sign", d, [w * 2 + odd], State())
            for o in no_panic(ck, "decode_sign", "decode_sign/%d" % odd, outs or []):
                ck.ob("decode_sign", "decode_sign/%s" % ("odd" if odd else "even"), o.st, eq(o.val, signed(w, odd)),
                      "decode_sign maps %s values to %s" % (("odd", "-(v/2)-1") if odd else ("even", "v/2")))

def half(ck):
    """a generic unsigned 63-bit value: every i64 is w or -1-w, every u64 is 2w or 2w+1"""
    ck.n += 1
    return A(atom("in", (("w", ck.n), "half"), 0, -MIN - 1))


def signed(w, neg):
    return -w - 1 if neg else w


def back(ck, d, o, v):
    if not d:
        return
    outs = ck.run("decode_sign(encode_sign)", d, [o.val], o.st)
    for q in no_panic(ck, "inverse", "decode_sign(encode_sign)", outs or []):
        ck.ob("inverse", "decode_sign(encode_sign)", q.st, eq(q.val, v), "decode_sign inverts encode_sign")


def classes():
    """(length, sign, range of w) where the mapped value is 2w + sign"""
    for n, lo, hi in RANGES:
        yield n, 0, (lo + 1) // 2, hi // 2
        yield n, 1, lo // 2, (hi - 1) // 2


def sized(ck):
    k = ck.anchor(E + "signed_encoded_size")
    if not k:
        return
    for n, neg, lo, hi in classes():
        w = half(ck)
        for o in no_panic(ck, "size", "signed_encoded_size",
                          ck.run("signed_encoded_size", k, [signed(w, neg)], ranged(w, lo, hi)) or []):
            ck.ob("size", "signed_encoded_size/%d%s" % (n, "-" if neg else "+"), o.st, eq(o.val, C(n)),
                  "signed values mapped to %d bytes have encoded size %d" % (n, n))


def enc(ck, nm="signed_encode", k=None, vi=0):
    k = k or ck.anchor(E + "signed_encode")
    if not k:
        return
    for n, neg, lo, hi in classes():
        a = ck.args(k)
        w = half(ck)
        a[vi] = signed(w, neg)
        outs = ck.run(nm, k, a, ranged(w, lo, hi))
        oks = 0
        key = nm + "/%d%s" % (n, "-" if neg else "+")
        for o in no_panic(ck, "encode", key, outs or []):
            fails = failed(o.st, "wr")
            if is_ok(o.val):
                oks += 1
                ck.path_ob("encode", key + "/err", o.st, not fails, nm + " does not report success after a failed write")
                m = w * 2 + neg
                want = [m] if n == 1 else [C(0xF8 + n - 2)] + body_bytes(o.st, m, n - 1)
                check_bytes(ck, "encode", key, o.st, written(o.st), want, "the signed encoding of a %d-byte value" % n)
            else:
                ck.path_ob("encode", key + "/ok", o.st, bool(fails), nm + " fails only when the writer fails")
        if outs is not None:
            ck.fact("encode", key + "/some", oks > 0, nm + " can succeed")


def dec(ck, nm="signed_decode", k=None):
    k = k or ck.anchor(E + "signed_decode")
    if not k:
        return
    from .c01 import headers
    for lo, hi, n in headers():
        for odd in (0, 1):
            a = ck.args(k)
            r = a[0]
            st = State()
            h = stream_byte(r, 0)
            st.assume(ge(h, C(lo)))
            st.assume(ge(C(hi), h))
            last = stream_byte(r, n - 1)
            # parity of the decoded value: 0xF8 is even, so it is the parity of the last byte
            ck.n += 1
            q = A(atom("in", (("w", ck.n), "q"), 0, 127))
            if not st.assume(eq(last, q * 2 + odd)):
                continue
            y = (q if n == 1 else from_be([stream_byte(r, i) for i in range(1, n - 1)]) * 128 + q + 0x7C)
            key = nm + "/%x/%s" % (lo, "odd" if odd else "even")
            outs = ck.run(nm, k, a, st)
            oks = 0
            for o in no_panic(ck, "decode", key, outs or []):
                if failed(o.st, "rd"):
                    ck.path_ob("decode", key + "/io", o.st, is_ok(o.val) is False, "a failed read is not reported as success")
                    continue
                ck.ob("decode", key + "/consumed", o.st, eq(consumed(ck, o.st, r), C(n)), "header %#x: exactly %d byte(s) are consumed" % (lo, n))
                if is_ok(o.val):
                    oks += 1
                    ck.ob("decode", key + "/value", o.st, eq(o.val.fields[0], signed(y, odd)), "the value is the inverse mapping of the decoded ILInt")
                else:
                    ck.ob("decode", key + "/overflow", o.st, ge(y * 2 + odd, C(U64 + 1)), "decoding fails only on overflow")
            if outs is not None:
                ck.fact("decode", key + "/some", oks > 0, nm + " can succeed")
