"""C22: the geometry a RawTagOffset reports is consistent."""
from .tags import *

TY = "tags::raw::RawTagOffset"
OFF = TY + "::"


def main():
    ck = Check("C22", "raw tag geometry")
    ck.go(check)
    return ck.finish(
        "RawTagOffset::new is abstractly interpreted on any id, offset, header and value size whose sum fits in 64 bits, then each public "
        "accessor, slice function, the mapping to the parent's space (on any such parent), equality and the default value on the result; "
        "what they return is compared with the geometry as linear forms, slices byte for byte.", floor=40)


def check(ck):
    private(ck, TY)
    ck.ob_ = {}
    ks = {n: ck.anchor(OFF + n) for n in (
        "new", "id", "offset", "size", "value_offset", "value_size", "next_tag_offset", "value_start", "value_end", "tag_start", "tag_end",
        "tag_slice", "value_slice", "map_to_parent_space")}
    if None in ks.values():
        return
    ck.step("accessors", accessors, ck, ks)
    ck.step("slices", slices, ck, ks)
    ck.step("map", mapped, ck, ks)
    ck.step("default", default, ck, ks)
    ck.step("eq", equality, ck, ks)


NUMS = ("id", "offset", "size", "value_offset", "value_size", "next_tag_offset", "value_start", "value_end", "tag_start", "tag_end")


def make(ck, ks, st, what="new"):
    """(state, pointer, {accessor: value}) of a generic geometry"""
    a = ck.args(ks["new"])
    i, o, h, v = a
    st = st.copy()
    if not st.assume(ge(C(U64), o + h + v)):
        return []
    out = []
    for q in no_panic(ck, "panic", what, ck.run(what, ks["new"], a, st) or []):
        s = q.st.copy()
        p = Ptr(ck.ip.newcell(s, q.val, CR + TY, "obj"))
        out.append((s, p, model(i, o, h, v)))
    return out


def model(i, o, h, v):
    return {"id": i, "offset": o, "size": h + v, "value_offset": o + h, "value_size": v, "next_tag_offset": o + h + v,
            "value_start": o + h, "value_end": o + h + v, "tag_start": o, "tag_end": o + h + v}


def verify(ck, ks, rule, what, st, p, m):
    for n in NUMS:
        for s, x in obs(ck, "panic", "%s %s" % (what, n), ks[n], [p], st):
            ck.ob(rule, "%s/%s" % (what, n), s, eq(x, m[n]), "%s: %s() agrees with the offset, header size and value size" % (what, n))


def accessors(ck, ks):
    for s, p, m in make(ck, ks, State()):
        verify(ck, ks, "geometry", "new", s, p, m)


def slices(ck, ks):
    for n, lo, hi in (("tag_slice", "offset", "next_tag_offset"), ("value_slice", "value_offset", "next_tag_offset")):
        for s, p, m in make(ck, ks, State()):
            a = ck.args(ks[n], a0=p)
            buf = ck.ip.models.seqof(s, a[1])
            s = s.copy()
            if not s.assume(ge(buf.len, m["next_tag_offset"])):
                continue
            for z, x in obs(ck, "panic", n, ks[n], a, s):
                got = ck.ip.models.seqof(z, x)
                ck.ob("slice", n + "/len", z, eq(got.len, m[hi] - m[lo]), "%s returns exactly that part of the buffer" % n)
                i = fresh("idx", 0, U64)
                if z.assume(ge(m[hi] - m[lo] - 1, i)) and z.assume(ge(got.len - 1, i)):
                    ck.cases(z, lambda y: ck.ob("slice", n, y, eq(ck.ip.seqget(y, got, i), ck.ip.seqget(y, buf, m[lo] + i)),
                                                "%s returns the bytes at those offsets" % n) and None)


def mapped(ck, ks):
    ok, u0 = 0, ck.nund
    for s, p, m in make(ck, ks, State()):
        for s2, par, pm in make(ck, ks, s, "parent"):
            for o in no_panic(ck, "panic", "map_to_parent_space", ck.run("map_to_parent_space", ks["map_to_parent_space"], [p, par], s2) or []):
                result_is(ck, "map", "map_to_parent_space", o, ge(pm["value_size"], m["next_tag_offset"]), "the tag fits in the parent's value",
                          [(TRUE, ("CorruptedData",))])
                if not is_ok(o.val):
                    continue
                ok += 1
                z = o.st.copy()
                q = Ptr(ck.ip.newcell(z, o.val.fields[0], CR + TY, "obj"))
                verify(ck, ks, "map", "mapped", z, q, model(m["id"], pm["value_offset"] + m["offset"], m["value_offset"] - m["offset"], m["value_size"]))
    ck.some("map_to_parent_space", ok, u0, "map_to_parent_space can succeed")


TRUE = ge(ZERO, ZERO)


def default(ck, ks):
    k = ck.meth("std::default::Default", TY, "default")
    if k is None:
        return ck.violation("anchor:Default", "RawTagOffset has no default any more")
    for s, x in obs(ck, "panic", "default", k, [], State()):
        s = s.copy()
        p = Ptr(ck.ip.newcell(s, x, CR + TY, "obj"))
        verify(ck, ks, "default", "default", s, p, {n: ZERO for n in NUMS})


def equality(ck, ks):
    k = ck.meth("std::cmp::PartialEq", TY, "eq")
    if k is None:
        return ck.violation("anchor:PartialEq", "RawTagOffset cannot be compared any more")
    for s, p, m in make(ck, ks, State()):
        for s2, q, n in make(ck, ks, s, "other"):
            for z, x in obs(ck, "panic", "eq", k, [p, q], s2):
                same_bool(ck, "eq", "eq", z, x, conj([eq(m[f], n[f]) for f in ("id", "offset", "value_offset", "value_size")]),
                          "two geometries are equal exactly if all their parts are")
