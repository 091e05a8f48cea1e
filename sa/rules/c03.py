"""C03: every io::data primitive is big-endian, of exact width, and lossless in both directions."""
from .common import *
from . import c01, c02

D = "io::data::"
TYPES = [("u8", 8, 0), ("i8", 8, 1), ("u16", 16, 0), ("i16", 16, 1), ("u32", 32, 0), ("i32", 32, 1),
         ("u64", 64, 0), ("i64", 64, 1), ("f32", 32, 2), ("f64", 64, 2)]
DR, DW = "dyn il2_iltags::io::Reader", "dyn il2_iltags::io::Writer"


def main():
    ck = Check("C03", "io::data primitives")
    ck.go(check)
    return ck.finish(
        "Abstract interpretation of every free function read_*/write_* of io::data and of every impl (for `dyn Reader`/"
        "`dyn Writer` and the blanket impl) of the value/ILInt/string reader and writer traits. For each: bytes consumed or "
        "written, their order, and the value, as terms over the symbolic input; success iff no underlying call failed.", floor=300)


def variants(ck, trait, targ, method, free, fargs):
    """(name, key, argument order) of the free function, the dyn impl and the blanket impl"""
    out = []
    k = ck.anchor(D + free)
    if k:
        out.append((free, k, fargs))
    for s in (DR if "Reader" in trait else DW, "T"):
        pre = "<%s as il2_iltags::%s%s>::%s" % (s, D, trait + ("<%s>" % targ if targ else ""), method)
        ks = [x["methods"][method]["key"] for x in ck.impls(D + trait)
              if x["self"] == s and method in x["methods"] and x["methods"][method]["key"].split(" @")[0] == pre]
        if not ks or ks[0] not in ck.ip.raw:
            ck.violation("anchor:" + pre, "the impl %s is gone" % pre)
            continue
        out.append((pre.replace("il2_iltags::", ""), ks[0], "s"))
    return out


def check(ck):
    for t, n, sg in TYPES:
        for nm, k, _ in variants(ck, "ValueReader", t, "read_value", "read_" + t, "r"):
            ck.step(nm, read, ck, nm, k, n, sg)
        for nm, k, o in variants(ck, "ValueWriter", t, "write_value", "write_" + t, "vw"):
            ck.step(nm, write, ck, nm, k, o, n, sg)
    for nm, k, _ in variants(ck, "ILIntReader", None, "read_ilint", "read_ilint", "r"):
        ck.step(nm, c01.dec, ck, nm, k, IOK)
    for nm, k, _ in variants(ck, "SignedILIntReader", None, "read_signed_ilint", "read_signed_ilint", "r"):
        ck.step(nm, c02.dec, ck, nm, k)
    for nm, k, o in variants(ck, "ILIntWriter", None, "write_ilint", "write_ilint", "vw"):
        ck.step(nm, c01.enc, ck, nm, k, 0 if o == "vw" else 1, IOK)
    for nm, k, o in variants(ck, "SignedILIntWriter", None, "write_signed_ilint", "write_signed_ilint", "vw"):
        ck.step(nm, c02.enc, ck, nm, k, 0 if o == "vw" else 1)
    for nm, k, _ in variants(ck, "StringValueReader", None, "read_string", "read_string", "rv"):
        ck.step(nm, rstring, ck, nm, k)
    for nm, k, o in variants(ck, "ValueWriter", "&str", "write_value", "write_string", "vw"):
        ck.step(nm, wstring, ck, nm, k, o)


# error kinds that io::data uses for a failing stream / for a malformed value
IOK = {"IOError": None, "ValueOverflow": "CorruptedData", "InvalidFormat": "CorruptedData"}


def read(ck, nm, k, n, sg):
    w = n // 8
    oks = 0
    for lo, hi, base in ((0, 127, 0), (128, 255, -(1 << n))) if sg == 1 else ((0, 255, 0),):
        a = ck.args(k)
        r = a[0]
        st = State()
        if sg == 1:
            ck.n += 1
            st._sub1(stream_byte(r, 0).single(), A(atom("in", (("w", ck.n), "q"), 0, 127)) + lo)
        want = st.norm(from_be([stream_byte(r, i) for i in range(w)]) + base)
        for o in no_panic(ck, "read", nm, ck.run(nm, k, a, st) or []):
            bad = failed(o.st, "rd")
            if is_ok(o.val):
                oks += 1
                ck.path_ob("read", nm + "/io", o.st, not bad, "%s does not report success after a failed read" % nm)
                ck.ob("read", nm + "/consumed", o.st, eq(consumed(ck, o.st, r), C(w)), "%s consumes exactly %d byte(s)" % (nm, w))
                ck.ob("read", nm + "/value", o.st, eq(o.val.fields[0], want), "%s returns the big-endian value of the bytes" % nm)
            else:
                ck.path_ob("read", nm + "/fails", o.st, bool(bad), "%s fails only when the reader fails" % nm)
    ck.fact("read", nm + "/some", oks > 0, "%s can succeed" % nm)


def write(ck, nm, k, order, n, sg):
    a = ck.args(k)
    v = a[0 if order == "vw" else 1]
    w = n // 8
    oks = 0
    for o in no_panic(ck, "write", nm, ck.run(nm, k, a) or []):
        bad = failed(o.st, "wr")
        if is_ok(o.val):
            oks += 1
            ck.path_ob("write", nm + "/io", o.st, not bad, "%s does not report success after a failed write" % nm)
            check_bytes(ck, "write", nm, o.st, written(o.st), be_bytes(o.st, v, w), "the output of %s" % nm)
        else:
            ck.path_ob("write", nm + "/fails", o.st, bool(bad), "%s fails only when the writer fails" % nm)
    ck.fact("write", nm + "/some", oks > 0, "%s can succeed" % nm)


def rstring(ck, nm, k):
    a = ck.args(k)
    r, size = a
    oks = 0
    # larger sizes cannot be allocated by any implementation
    for o in no_panic(ck, "string", nm, ck.run(nm, k, a, ranged(size, 0, (1 << 63) - 1)) or []):
        bad = failed(o.st, "rd")
        inval = failed(o.st, "utf8")
        if is_ok(o.val):
            oks += 1
            ck.path_ob("string", nm + "/io", o.st, not bad and not inval, "%s does not report success after a failed read or invalid UTF-8" % nm)
            ck.ob("string", nm + "/consumed", o.st, eq(consumed(ck, o.st, r), size), "%s consumes exactly `size` bytes" % nm)
            same_seq(ck, "string", nm, o.st, ck.ip.models.seqof(o.st, o.val.fields[0]), stream_seq(r, ZERO, size), "the string %s returns" % nm)
        else:
            ck.path_ob("string", nm + "/fails", o.st, bool(bad or inval), "%s fails only when the reader fails or the bytes are not UTF-8" % nm)
    ck.fact("string", nm + "/some", oks > 0, "%s can succeed" % nm)


def wstring(ck, nm, k, order):
    a = ck.args(k)
    s = a[0 if order == "vw" else 1]
    oks = 0
    for o in no_panic(ck, "string", nm, ck.run(nm, k, a) or []):
        bad = failed(o.st, "wr")
        if is_ok(o.val):
            oks += 1
            ck.path_ob("string", nm + "/io", o.st, not bad, "%s does not report success after a failed write" % nm)
            src = ck.ip.models.seqof(o.st, s)
            same_seq(ck, "string", nm, o.st, written(o.st), src, "the output of %s" % nm)
        else:
            ck.path_ob("string", nm + "/fails", o.st, bool(bad), "%s fails only when the writer fails" % nm)
    ck.fact("string", nm + "/some", oks > 0, "%s can succeed" % nm)
