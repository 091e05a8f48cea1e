"""C20: the raw scanner walks a tag sequence without gaps or overlaps."""
from .decode import *
import cuts

SC = "tags::raw::RawTagScanner::<'a, T>::"
OFF = "tags::raw::RawTagOffset::"


def main():
    ck = Check("C20", "raw scanner tiles the input")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "RawTagScanner::next_tag and next_tag_if_id are abstractly interpreted on a scanner with arbitrary history over an arbitrary, "
        "possibly failing reader, with arbitrary input bytes. On every successful path the geometry reported (through the public "
        "accessors) is compared with the format: id, header length, value size per id, and the bytes the reader was moved by; a second "
        "call on the resulting scanner must report the offset at which the first ended, and the first call on a new scanner offset 0. "
        "The reserved implicit id 15 must be refused with CorruptedData, an unexpected id with UnexpectedTagType.", floor=60)


def check(ck):
    private(ck, "tags::raw::RawTagScanner")
    private(ck, "tags::raw::RawTagOffset")
    nx, nid, new = ck.anchor(SC + "next_tag"), ck.anchor(SC + "next_tag_if_id"), ck.anchor(SC + "new")
    ob = {n: ck.anchor(OFF + n) for n in ("id", "offset", "size", "value_offset", "value_size", "next_tag_offset")}
    if None in ob.values() or None in (nx, nid, new):
        return
    ck.step("next_tag", first, ck, "next_tag", nx, ob)
    ck.step("next_tag_if_id", first, ck, "next_tag_if_id", nid, ob)
    ck.step("next_tag twice", again, ck, nx, nx, "next_tag", ob)
    ck.step("next_tag_if_id after next_tag", again, ck, nx, nid, "next_tag_if_id", ob)
    ck.step("next_tag after next_tag_if_id", again, ck, nid, nx, "next_tag after next_tag_if_id", ob)
    ck.step("new", fresh_one, ck, new, nx, ob)
    ck.step("passed over", passed, ck, new, nid, nx, ob)


def geometry(ck, what, st, v, ob):
    """the observers' values on a RawTagOffset, one state per combination of their paths"""
    s = st.copy()
    p = Ptr(ck.ip.newcell(s, v, CR + "tags::raw::RawTagOffset", "obj"))
    alts = [(s, {})]
    for n, k in ob.items():
        nxt = []
        for s, d in alts:
            for o in ck.run("%s %s()" % (what, n), k, [p], s) or []:
                if o.kind != "panic":
                    nxt.append((o.st, dict(d, **{n: o.val})))
        alts = nxt
    return alts


def some(o):
    """the RawTagOffset in Ok(Some(_)); None otherwise"""
    if is_ok(o.val) is True and isinstance(o.val.fields[0], Enum) and o.val.fields[0].var == 1:
        return o.val.fields[0].fields[0]
    return None


def source(ck, st, p):
    """the reader a scanner holds"""
    v = ck.ip.load(st, p.cell, p.path)
    rs = [f for f in v.fields if isinstance(f, Ptr)] if isinstance(v, Struct) else []
    if len(rs) != 1:
        raise GiveUp("the scanner does not hold exactly one reader")
    return rs[0]


def first(ck, what, k, ob):
    a = ck.args(k)
    st = State()
    r = source(ck, st, a[0])
    sn = streamname(r)
    n, u0 = 0, ck.nund
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic":
            continue            # C08
        s = o.st
        t = some(o)
        h = cuts.clen(s, sn, ZERO)
        rd = [e for e in reads(s, r) if e.ok]
        if t is None:
            ck.path_ob("refuse", what + "/none", s, is_ok(o.val) is not True, "%s reports a tag or an error" % what)
            refused(ck, what, s, o, a, r, sn)
            continue
        n += 1
        ck.path_ob("source", what, s, not [e for e in s.log if e.kind in ("rd", "seek") and not e.ok], "%s reports no tag when the reader failed" % what)
        for z, g in geometry(ck, what, s, t, ob):
            shape(ck, what, z, g, r, sn, a)
    ck.some(what, n, u0, "%s: some tag is reported" % what)


def refused(ck, what, s, o, a, r, sn):
    """the reason of a failure, when the whole id was read: id 15 is corrupted"""
    e = err_name(ck.ip, o.val)
    if not any(x.ok and x.d.get("via") in ("read", "read_all", "ilint") for x in reads(s, r)) or failed(s, "rd") or failed(s, "seek") or \
            [x for x in events(s, "call") if not x.ok]:
        return
    h = cuts.clen(s, sn, ZERO)
    z = s.copy()
    if z.assume(ge(consumed(ck, z, r), h)) and z.assume(eq(idof(z, sn), C(15))):
        ck.path_ob("reserved", what, z, e == "CorruptedData", "%s refuses the undefined implicit id 15 with CorruptedData, not %s" % (what, e))
    # nothing else is refused, save what does not fit in 64 bits (the assumed inequalities on the ILInts make the witness have them)
    for lo, hi in ((0, 14), (16, U64)):
        z = s.copy()
        if not (z.assume(ge(consumed(ck, z, r), h)) and z.assume(ge(idof(z, sn), C(lo))) and z.assume(ge(C(hi), idof(z, sn))) and
                z.assume(ne(idof(z, sn), C(hi)))):
            continue
        if lo and not z.assume(ne(z.norm(A(atom("fn", ("dec", sn, h), 0, U64))), C(U64))):
            continue
        if len(a) > 1 and not z.assume(eq(idof(z, sn), a[1])):
            continue
        ck.path_ob("refuse", what, z, e == "TagTooLarge", "%s accepts every defined id the reader can serve (not %s)" % (what, e))


def idof(st, sn):
    return st.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))


def shape(ck, what, s, g, r, sn, a):
    c = consumed(ck, s, r)
    h = cuts.clen(s, sn, ZERO)
    tag = idof(s, sn)
    ck.ob("id", what, s, eq(g["id"], tag), "%s reports the id in the stream" % what)
    if len(a) > 1:
        ck.ob("id", what + "/expected", s, eq(g["id"], a[1]), "%s reports only the expected id" % what)
    ck.ob("moved", what, s, eq(c, g["size"]), "%s moves the reader over exactly the tag it reports" % what)
    ck.ob("moved", what + "/next", s, eq(g["next_tag_offset"], g["offset"] + c), "%s: the next tag starts where this one ends" % what)
    for i in range(16):
        z = s.copy()
        if not z.assume(eq(tag, C(i))):
            continue
        w = "%s/%d" % (what, i)
        if i == 15:
            ck.path_ob("reserved", what, z, False, "%s refuses the undefined implicit id 15" % what)
            continue
        ck.ob("header", w, z, eq(g["value_offset"] - g["offset"], h), "%s: the header of an implicit tag is its id" % what)
        if i in ILINT_IDS:
            ck.ob("value", w, z, eq(g["value_size"], vlen(z, sn, h)), "%s: the value of id %d is one ILInt" % (what, i))
        else:
            ck.ob("value", w, z, eq(g["value_size"], C(IMPLICIT[i])), "%s: the value of id %d has %d bytes" % (what, i, IMPLICIT[i]))
    z = s.copy()
    if z.assume(ge(tag, C(16))):
        h2 = cuts.clen(z, sn, h)
        ck.ob("header", what + "/explicit", z, eq(g["value_offset"] - g["offset"], h + h2), "%s: the header is the id and the size" % what)
        ck.ob("value", what + "/explicit", z, eq(g["value_size"], z.norm(A(atom("fn", ("dec", sn, h), 0, U64)))),
              "%s reports the announced value size" % what)


def vlen(st, sn, h):
    return cuts.clen(st, sn, h)


def again(ck, k1, k2, what, ob):
    a = ck.args(k1)
    for o in ck.run("scan", k1, a) or []:
        t = some(o) if o.kind != "panic" else None
        if t is None:
            continue
        for s, g in geometry(ck, what, o.st, t, ob):
            b = ck.args(k2, a0=a[0])
            for q in ck.run(what + " again", k2, b, s) or []:
                t2 = some(q) if q.kind != "panic" else None
                if t2 is None:
                    continue
                for z, g2 in geometry(ck, what, q.st, t2, ob):
                    ck.ob("tile", what, z, eq(g2["offset"], g["next_tag_offset"]), "%s: a tag starts where the previous one ended" % what)


def fresh_one(ck, new, nx, ob):
    a = ck.args(new)
    for o in ck.run("new", new, a) or []:
        if o.kind == "panic":
            continue
        s = o.st
        p = Ptr(ck.ip.newcell(s, o.val, CR + "tags::raw::RawTagScanner", "obj"))
        for q in ck.run("next_tag after new", nx, [p], s) or []:
            t = some(q) if q.kind != "panic" else None
            if t is not None:
                for z, g in geometry(ck, "new", q.st, t, ob):
                    ck.ob("tile", "new", z, eq(g["offset"], ZERO), "the first tag of a new scanner starts at offset 0")


def passed(ck, new, nid, nx, ob):
    """a tag refused for its id has been scanned all the same: the next one starts where it ended"""
    a = ck.args(new)
    what = "next_tag after a refused next_tag_if_id"
    n, u0 = 0, ck.nund
    for o in ck.run("new", new, a) or []:
        if o.kind == "panic":
            continue
        s = o.st
        p = Ptr(ck.ip.newcell(s, o.val, CR + "tags::raw::RawTagScanner", "obj"))
        r = source(ck, s, p)
        sn = streamname(r)
        for q in ck.run("next_tag_if_id after new", nid, ck.args(nid, a0=p), s) or []:
            if q.kind == "panic" or err_name(ck.ip, q.val) != "UnexpectedTagType":
                continue
            n += 1
            z = q.st
            c, h, tag = consumed(ck, z, r), cuts.clen(z, sn, ZERO), idof(z, sn)
            for i in range(17):
                y = z.copy()
                if i == 15 or not y.assume(eq(tag, C(i)) if i < 16 else ge(tag, C(16))):
                    continue
                want = h + (vlen(y, sn, h) if i in ILINT_IDS else C(IMPLICIT[i]) if i < 16 else
                                                cuts.clen(y, sn, h) + y.norm(A(atom("fn", ("dec", sn, h), 0, U64))))
                ck.ob("passed", "next_tag_if_id/%d" % i, y, eq(c, want), "next_tag_if_id passes over the tag it refuses for its id")
            for x in ck.run("next_tag after a refusal", nx, [p], z) or []:
                t = some(x) if x.kind != "panic" else None
                if t is not None:
                    for y, g in geometry(ck, what, x.st, t, ob):
                        ck.ob("tile", what, y, eq(g["offset"], c), "a tag starts where the one refused for its id ended")
    ck.some(what, n, u0, "next_tag_if_id refuses other ids")
