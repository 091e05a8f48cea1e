"""C29: the serialization helpers write, read and forward exactly what they are given."""
import re
from .common import *
from . import c01, c02, c03

S = "tags::serialization::"
TYPES = {t: (n, sg) for t, n, sg in c03.TYPES}
ANY = {"IOError": None, "ValueOverflow": None, "InvalidFormat": None}
# (trait, method) -> what an impl that forwards to another trait must call
FORWARD = {("ValueDeserializer", "deserialize_value"): "read_value", ("ValueSerializer", "serialize_value"): "write_value",
           ("ILIntDeserializer", "deserialize_ilint"): "read_ilint", ("ILIntSerializer", "serialize_ilint"): "write_ilint",
           ("StringDeserializer", "deserialize_string"): "read_string",
           ("SignedILIntDeserializer", "deserialize_signed_ilint"): "read_signed_ilint",
           ("SignedILIntSerializer", "serialize_signed_ilint"): "write_signed_ilint"}
TRAITS = sorted({t for t, _ in FORWARD}) + ["ByteArrayDeserializer", "ByteArraySerializer"]
# impls the crate provides, per trait: for dyn Reader/dyn Writer, and forwarding ones
EXPECT = {"ValueDeserializer": (10, 2), "ValueSerializer": (11, 2), "ByteArrayDeserializer": (2, 0), "ByteArraySerializer": (2, 0)}


def main():
    ck = Check("C29", "serialization helpers write, read and forward exactly what they are given")
    ck.go(check)
    return ck.finish(
        "Every impl of the nine traits of tags::serialization (for `dyn Reader`/`dyn Writer`, for the io::data trait objects and the "
        "blanket impls), their provided methods and the five free functions are interpreted over MIR on arbitrary arguments and a reader or writer "
        "with arbitrary bytes that may fail at any call. Concrete ones: bytes read or written, their order and number, and the value, as terms over the input, as "
        "for io::data (C03); byte arrays are exactly the bytes given or read. Forwarding ones: exactly one call of the underlying method, "
        "on the receiver, with exactly the given arguments, whose result is returned. Success iff no underlying call failed.", floor=400)


def check(ck):
    for tr in TRAITS:
        direct = fwd = 0
        for i in ck.impls(S + tr):
            io = i["self"] in (c03.DR, c03.DW) or tr.startswith("ByteArray")      # reads from or writes to a stream itself
            direct, fwd = direct + io, fwd + (not io)
            for m, c in sorted(i["methods"].items()):
                k = c.get("key")
                if k not in ck.ip.raw or c.get("rpath") == c["path"]:
                    continue
                g = re.search(re.escape(tr) + r"<(.*?)>+::" + m, k)
                targ = g.group(1) if g else None
                what = "<%s as %s%s>::%s" % (i["self"].replace(CR, ""), tr, "<%s>" % targ if targ else "", m)
                if not io:
                    ck.step(what, forward, ck, what, k, FORWARD.get((tr, m)))
                else:
                    ck.step(what, concrete, ck, what, k, m, targ)
        want = EXPECT.get(tr, (1, 2))
        ck.fact("impls", tr, direct >= want[0] and fwd >= want[1], "%s is implemented for readers or writers and for the traits it forwards to" % tr)
    for m in ("serialize_ilint", "deserialize_ilint", "serialize_bytes", "deserialize_bytes", "deserialize_bytes_into_vec"):
        k = ck.anchor(S + m)
        if k:
            ck.step(m, concrete, ck, m, k, m, None, False)
    for tr, m, to in (("ByteArrayDeserializer", "deserialize_bytes_into_vec", "deserialize_bytes_into_slice"),
                      ("ByteArraySerializer", "serialize_byte_vec", "serialize_bytes")):
        k = ck.find(S + tr + "::" + m)
        if k:
            ck.step(tr + "::" + m, provided, ck, tr + "::" + m, k, to)


def concrete(ck, what, k, m, targ, method=True):
    """an entry point that reads from a Reader or writes to a Writer"""
    of = "s" if method else "vw"
    if m in ("deserialize_value", "serialize_value"):
        if targ == "&str":
            return c03.wstring(ck, what, k, of)
        if targ not in TYPES:
            return ck.undecided("type:" + what, "no layout is known for %s" % targ)
        n, sg = TYPES[targ]
        return c03.read(ck, what, k, n, sg) if m[0] == "d" else c03.write(ck, what, k, of, n, sg)
    if m == "deserialize_ilint":
        return c01.dec(ck, what, k, ANY)
    if m == "serialize_ilint":
        return c01.enc(ck, what, k, 0 if not method else 1, ANY)
    if m == "deserialize_signed_ilint":
        return c02.dec(ck, what, k)
    if m == "serialize_signed_ilint":
        return c02.enc(ck, what, k, 0 if not method else 1)
    if m == "deserialize_string":
        return c03.rstring(ck, what, k)
    if m in ("serialize_bytes", "serialize_byte_vec"):
        return c03.wstring(ck, what, k, of)
    if m == "deserialize_bytes":
        return rbytes(ck, what, k, 1 if method else 0, 0 if method else 1)
    if m == "deserialize_bytes_into_slice":
        return into(ck, what, k, None, 0, 1)
    if m == "deserialize_bytes_into_vec":
        return into(ck, what, k, 1 if method else 0, 0 if method else 1, 2)
    ck.undecided("method:" + what, "%s is not described" % what)


def rbytes(ck, what, k, si, ri):
    a = ck.args(k)
    oks = 0
    for o in no_panic(ck, "bytes", what, ck.run(what, k, a, ranged(a[si], 0, (1 << 63) - 1)) or []):
        if is_ok(o.val):
            oks += 1
            outcome(ck, what, o, a[ri], a[si])
            same_seq(ck, "bytes", what, o.st, ck.ip.models.seqof(o.st, o.val.fields[0]), stream_seq(a[ri], ZERO, a[si]), "what %s returns" % what)
        else:
            ck.path_ob("bytes", what + "/fails", o.st, bool(failed(o.st, "rd")), "%s fails only when the reader fails" % what)
    ck.fact("bytes", what + "/some", oks > 0, "%s can succeed" % what)


def outcome(ck, what, o, r, n):
    ck.path_ob("bytes", what + "/io", o.st, not failed(o.st, "rd"), "%s does not report success after a failed read" % what)
    ck.ob("bytes", what + "/consumed", o.st, eq(consumed(ck, o.st, r), n), "%s consumes exactly the bytes asked for" % what)


def into(ck, what, k, si, ri, bi):
    a, st = ck.args(k), State()
    if si is not None:
        n = a[si]
        st.assume(ge((1 << 63) - 1, n))
    else:
        n = ck.ip.models.seqof(st, a[bi]).len
    oks = 0
    for o in no_panic(ck, "bytes", what, ck.run(what, k, a, st) or []):
        if is_ok(o.val):
            oks += 1
            outcome(ck, what, o, a[ri], n)
            same_seq(ck, "bytes", what, o.st, ck.ip.models.seqof(o.st, a[bi]), stream_seq(a[ri], ZERO, n), "the buffer after %s" % what)
        else:
            ck.path_ob("bytes", what + "/fails", o.st, bool(failed(o.st, "rd")), "%s fails only when the reader fails" % what)
    ck.fact("bytes", what + "/some", oks > 0, "%s can succeed" % what)


def alike(ck, rule, key, st, x, y, msg):
    """x and y are the same value"""
    if isinstance(x, L) or isinstance(y, L):
        return ck.ob(rule, key, st, eq(x, y) if isinstance(x, L) and isinstance(y, L) else False, msg)
    if isinstance(x, (Ptr, Seq)) and isinstance(y, (Ptr, Seq)):
        u, v = (ck.ip.models.seqof(st, ck.ip.models.flat(st, z)) if isinstance(z, Ptr) else z for z in (x, y))
        return same_seq(ck, rule, key, st, u, v, msg)
    return ck.path_ob(rule, key, st, str(x) == str(y), msg)


def calls(st):
    return [e for e in st.log if e.kind == "call"]


def forward(ck, what, k, to):
    a = ck.args(k)
    oks = 0
    for o in no_panic(ck, "forward", what, ck.run(what, k, a) or []):
        cs = calls(o.st)
        if is_ok(o.val):
            oks += 1
            if not ck.path_ob("forward", what + "/once", o.st, len(cs) == 1 and cs[0].d["path"].split("::")[-1] == to and cs[0].ok,
                              "%s succeeds after exactly one successful call of %s" % (what, to)):
                continue
            e = cs[0]
            ck.path_ob("forward", what + "/on", o.st, e.obj == ck.ip.models.objname(a[0]), "%s calls its receiver" % what)
            args = e.d["args"]
            if ck.path_ob("forward", what + "/argc", o.st, len(args) == len(a) - 1, "%s passes its arguments on" % what):
                for i, (x, y) in enumerate(zip(args, a[1:])):
                    alike(ck, "forward", "%s/arg%d" % (what, i), o.st, x, y, "%s passes on the value it was given" % what)
            if to.startswith("read"):
                alike(ck, "forward", what + "/value", o.st, o.val.fields[0], e.d["ret"], "%s returns the value that was read" % what)
        else:
            ck.path_ob("forward", what + "/fails", o.st, any(not e.ok for e in cs), "%s fails only when the call fails" % what)
    ck.fact("forward", what + "/some", oks > 0, "%s can succeed" % what)


def provided(ck, what, k, to):
    """a provided method in terms of the required one"""
    a, st = ck.args(k), State()
    read = to.startswith("deser")
    if read:
        st.assume(ge((1 << 63) - 1, a[1]))
    oks = 0
    for o in no_panic(ck, "provided", what, ck.run(what, k, a, st) or []):
        cs = calls(o.st)
        if not is_ok(o.val):
            ck.path_ob("provided", what + "/fails", o.st, any(not e.ok for e in cs), "%s fails only when the call fails" % what)
            continue
        oks += 1
        if not ck.path_ob("provided", what + "/once", o.st, len(cs) == 1 and cs[0].d["path"].split("::")[-1] == to and cs[0].ok and len(cs[0].d["args"]) == 1,
                          "%s succeeds after exactly one successful call of %s" % (what, to)):
            continue
        x = cs[0].d["args"][0]
        if read:
            v = ck.ip.models.seqof(o.st, a[2])
            ck.ob("provided", what + "/size", o.st, eq(v.len, a[1]), "the vector has the size asked for")
            ck.path_ob("provided", what + "/whole", o.st, isinstance(x, Ptr) and x.cell == a[2].cell, "%s reads into the vector it was given" % what)
            if isinstance(x, Ptr) and x.rng is not None:
                ck.ob("provided", what + "/all", o.st, conj([eq(x.rng[0], ZERO), eq(x.rng[1], a[1])]), "%s fills the whole vector" % what)
        else:
            alike(ck, "provided", what + "/bytes", o.st, x, a[1], "%s writes the bytes it was given" % what)
    ck.fact("provided", what + "/some", oks > 0, "%s can succeed" % what)
