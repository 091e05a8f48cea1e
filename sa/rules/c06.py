"""C06: decoding consumes exactly the bytes the encoding occupies and decodes the tag that was announced."""
from .decode import *
import cuts

F = {"deserialize_bytes", "deserialize_bytes_into_vec", "deserialize_bytes_into_slice", "deserialize_string", "read_string"}


def main():
    ck = Check("C06", "decoding consumes exactly the encoding")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "Every function that decodes a whole encoding is abstractly interpreted on arbitrary input bytes and a reader that may fail; "
        "on each successful path the number of bytes taken from the reader is compared with what the format says the encoding "
        "occupies: the announced value size for every tag value (the ILInt itself for the two self-delimiting types), header plus "
        "announced (or implicit) size for a whole tag, the requested size for byte runs and strings - whose bytes are also compared. "
        "The tag a factory returns must be the one created for the id in the stream and must have been given the announced size; "
        "deserialize_into must refuse another id with UnexpectedTagType before touching the tag. Loops are closed by the recurrence "
        "solver of the analysis; nested tags are abstract and consume what they consume.", floor=150)


def check(ck):
    for what, kind, k, x in entries(ck):
        if kind == "value":
            ck.step(what, value, ck, what, k, x)
        elif kind == "factory":
            ck.step(what, factory, ck, what, k, x)
        elif kind in ("method", "fn") and x in F:
            ck.step(what, run_of_bytes, ck, what, k, x)
        elif kind == "fn" and x.startswith("deserialize_string_tag"):
            ck.step(what, string_tag, ck, what, k)
        elif kind in ("method", "fn") and x == "deserialize_ilint":
            ck.step(what, ilint, ck, what, k)
    anchors(ck)


def delegated(ck, what, o, r, args):
    """over another decoding trait: exactly one call, on the same object, with the same size, and its result is returned"""
    cs = [e for e in events(o.st, "call") if e.obj == ck.ip.models.objname(r)]
    if not cs:
        return False
    e = cs[0]
    ck.path_ob("delegates", what, o.st, len(cs) == 1, "%s makes one call on the reader it wraps" % what)
    ck.path_ob("delegates", what + "/args", o.st, loops.samet(o.st, tuple(e.args), tuple(args)), "%s passes on the size it was given" % what)
    ck.path_ob("delegates", what + "/result", o.st, loops.samev(o.st, e.ret, o.val.fields[0]), "%s returns what it was given back" % what)
    return True


def oks(ck, what, k, a, st):
    """successful paths"""
    n, u0 = 0, ck.nund
    for o in ck.run(what, k, a, st) or []:
        if o.kind != "panic" and is_ok(o.val):
            n += 1
            yield o
    ck.some(what, n, u0, "%s: some input is accepted" % what)


def value(ck, what, k, name):
    a, st = start(ck, what, "value", k)
    r = reader_arg(ck, k, a)
    for o in oks(ck, what, k, a, st):
        c = consumed(ck, o.st, r)
        if name.startswith("ILGenericPayloadTag"):
            sv = events(o.st, "subval")
            ck.path_ob("payload", what, o.st, len(sv) == 1 and not reads_own(o.st, r), "%s hands the whole value to its payload" % what)
            for e in sv:
                ck.ob("payload-size", what, o.st, eq(e.size, a[2]), "%s hands the value size to its payload" % what)
        elif name in SELF_DELIMITING:
            ck.ob("exact", what, o.st, eq(c, cuts.clen(o.st, streamname(r), ZERO)), "%s consumes exactly one ILInt" % what)
        else:
            ck.ob("exact", what, o.st, eq(c, a[2]), "%s consumes exactly the announced value size" % what)


def reads_own(st, r):
    """reads the tag itself made (those of its payload are accounted to the payload)"""
    return [e for e in st.log if e.kind == "rd" and e.obj == (r.cell, r.path) and e.d.get("via") not in ("read_all", "sub")]


def factory(ck, what, k, m):
    a, st = start(ck, what, "factory", k)
    r = a[1]
    sn = streamname(r)
    into = m == "deserialize_into"
    if into:
        tid = ck.ip.models.tagid(st, a[2]) if hasattr(ck.ip.models, "tagid") else A(atom("fn", ("tag", "id", ck.ip.models.objname(a[2])), 0, U64))
    n, u0 = 0, ck.nund
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic":
            continue
        idr = [e for e in reads(o.st, r) if e.ok and e.d.get("via") == "ilint"]
        if not idr or [e for e in o.st.log[o.st.log.index(idr[0]) + 1:][:1] if e.kind == "call" and not e.ok and e.path == cuts.P + "decode"]:
            ck.path_ob("id-first", what, o.st, is_ok(o.val) is not True, "%s reads the tag id" % what)
            continue
        h = cuts.clen(o.st, sn, ZERO)
        tag = o.st.norm(idr[0].val)
        ck.ob("id-first", what, o.st, eq(idr[0].pos, ZERO), "%s reads the tag id first" % what)
        sv = events(o.st, "subval")
        if into:
            z = o.st.copy()
            if z.assume(ne(tag, tid)):
                ck.path_ob("other-id", what, z, err_name(ck.ip, o.val) == "UnexpectedTagType", "%s refuses another tag's id with UnexpectedTagType" % what)
                ck.path_ob("other-id-untouched", what, z, not sv, "%s does not touch the tag when the id is another's" % what)
        if not is_ok(o.val):
            continue
        n += 1
        s = o.st.copy()
        # a creator creates a tag of the id it was asked for (C15 for the standard ones)
        if not all(s.assume(eq(A(atom("fn", ("tag", "id", e.name), 0, U64)), e.id)) for e in events(s, "create")):
            continue
        if into:
            ck.ob("same-id", what, s, eq(tag, tid), "%s succeeds only on the tag's own id" % what)
        else:
            created(ck, what, s, o.val.fields[0], tag)
        c = consumed(ck, s, r)
        left(ck, what, s, sv, c, tag, sn, h)
        for i in range(16):
            z = s.copy()
            if i == 15 or not z.assume(eq(tag, C(i))):
                continue
            if i in ILINT_IDS:
                ck.ob("frame", "%s/%d" % (what, i), z, ge(h + 9, c), "%s takes at most 9 bytes after the id for the self-delimiting id %d" % (what, i))
            else:
                ck.ob("frame", "%s/%d" % (what, i), z, eq(c, h + IMPLICIT[i]),
                      "%s takes the id and exactly %d bytes for the implicit id %d" % (what, IMPLICIT[i], i))
                sized(ck, what, z, sv, C(IMPLICIT[i]))
        z = s.copy()
        if z.assume(ge(tag, C(16))):
            h2 = cuts.clen(z, sn, h)
            sz = z.norm(A(atom("fn", ("dec", sn, h), 0, U64)))
            ck.ob("frame", what + "/explicit", z, eq(c, h + h2 + sz), "%s takes the header and exactly the announced size" % what)
            sized(ck, what, z, sv, sz)
    ck.some(what, n, u0, "%s: some input is accepted" % what)


def left(ck, what, s, sv, c, tag, sn, h):
    """the value bytes are those the tag took: none are left over or thrown away"""
    done = [e for e in sv if e.ok]
    if not done:
        return
    took = ZERO
    for e in done:
        took = took + e.n
    for cond, hd, lab in ((ge(C(15), tag), h, "implicit"), (ge(tag, C(16)), h + cuts.clen(s, sn, h), "explicit")):
        z = s.copy()
        if z.assume(cond):
            ck.ob("left-over", "%s/%s" % (what, lab), z, eq(c, hd + took),
                  "%s takes nothing but the header and what the tag it decodes takes" % what)


def sized(ck, what, z, sv, n):
    for e in sv:
        ck.ob("size", what, z, eq(e.size, n), "%s tells the tag the announced value size" % what)


def created(ck, what, s, p, tag):
    """the tag that is returned was made for the id in the stream"""
    ip = ck.ip
    cr = [e for e in events(s, "create") if e.ok and ("x", e.name) == p.cell]
    if cr:
        ck.ob("id", what, s, eq(cr[0].id, tag), "%s returns a tag created for the id it read" % what)
        ck.path_ob("filled", what, s, [e for e in events(s, "subval") if e.obj == cr[0].name] != [], "%s returns the tag it deserialised" % what)
        return
    v = ip.load(s, p.cell, p.path)
    for i in ck.impls("tags::ILTag"):
        c = i["methods"].get("id")
        if isinstance(v, Struct) and i["self"] == v.ty and c and c.get("key") in ip.raw:
            for s2, x in [(o.st, o.val) for o in ck.run(what + " id", c["key"], [p], s) or [] if o.kind != "panic"]:
                ck.ob("id", what, s2, eq(x, tag), "%s returns a tag with the id it read" % what)
            return
    ck.undecided("id:" + what, "cannot tell which tag is returned: %s" % (str(v)[:80]))


def run_of_bytes(ck, what, k, m):
    a, st = start(ck, what, "fn", k)
    fn = ck.ip.fn(k)
    r = a[0] if isinstance(a[0], Ptr) else a[1]
    if ck.ip.models.peek(st, r) is None:
        r = a[0]
    dst = [x for i, x in enumerate(a) if x is not r and isinstance(x, Ptr)]
    size = [x for x in a if isinstance(x, L)]
    for o in oks(ck, what, k, a, st):
        if delegated(ck, what, o, r, size):
            continue
        if size:
            n = size[0]
        else:
            n = ck.ip.models.seqof(o.st, dst[0]).len
        got = o.val.fields[0]
        if dst:
            got = ck.ip.models.seqof(o.st, dst[0])
        elif isinstance(got, Ptr):
            got = ck.ip.models.seqof(o.st, got)
        ck.ob("exact", what, o.st, eq(consumed(ck, o.st, r), n), "%s consumes exactly the requested number of bytes" % what)
        same_seq(ck, "bytes", what, o.st, got, stream_seq(r, ZERO, n), "what %s returns" % what)


def string_tag(ck, what, k):
    a, st = start(ck, what, "fn", k)
    r = a[0]
    sn = streamname(r)
    for o in oks(ck, what, k, a, st):
        h = cuts.clen(o.st, sn, ZERO)
        h2 = cuts.clen(o.st, sn, h)
        sz = o.st.norm(A(atom("fn", ("dec", sn, h), 0, U64)))
        idv = o.st.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))
        ck.ob("string-id", what, o.st, eq(idv, C(17)), "%s accepts only a string tag" % what)
        ck.ob("exact", what, o.st, eq(consumed(ck, o.st, r), h + h2 + sz), "%s consumes exactly the string tag" % what)
        got = o.val.fields[0] if len(a) == 1 else ck.ip.models.seqof(o.st, a[1])
        same_seq(ck, "bytes", what, o.st, got, stream_seq(r, h + h2, sz), "what %s returns" % what)


def ilint(ck, what, k):
    a, st = start(ck, what, "fn", k)
    r = a[0]
    sn = streamname(r)
    for o in oks(ck, what, k, a, st):
        if delegated(ck, what, o, r, []):
            continue
        ck.ob("exact", what, o.st, eq(consumed(ck, o.st, r), cuts.clen(o.st, sn, ZERO)), "%s consumes exactly one ILInt" % what)
        ck.ob("value", what, o.st, eq(o.val.fields[0], o.st.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))), "%s returns the ILInt in the stream" % what)
