"""C26: a failure has a cause, and says which."""
from .c11 import funcs
from .decode import *
import cuts

FACT = "tags::ILTagFactory"
STD = "ILStandardTagFactory"
# adapters translate the errors of std streams (C21); formatting has no errors of its own
NOT_HERE = ("std::fmt", "ReadReader", "WriteWriter", "SizedSeek", "<T as io::Reader>", "<T as io::Writer>")
KINDS = {"rd": "io", "wr": "io", "seek": "io", "flush": "io", "subtag": "sub", "subval": "sub", "subser": "sub", "to_bytes": "to_bytes", "from_bytes": "from_bytes", "call": "ret"}
# value bytes of the types of a fixed size (those of the implicit ids are in IMPLICIT)
FIXED = {"ILNullTag": 0, "ILBoolTag": 1, "ILInt8Tag": 1, "ILUInt8Tag": 1, "ILInt16Tag": 2, "ILUInt16Tag": 2, "ILInt32Tag": 4, "ILUInt32Tag": 4,
         "ILInt64Tag": 8, "ILUInt64Tag": 8, "ILBin32Tag": 4, "ILBin64Tag": 8, "ILBin128Tag": 16, "ILVersionTag": 16}
ANYSIZE = ("ILByteArrayTag", "ILStringTag", "ILBigIntTag", "ILRawTag", "ILILInt64Tag", "ILSignedILInt64Tag")


def main():
    ck = Check("C26", "failures have a cause")
    ck.use_cuts()
    cuts.install_factories(ck)
    ck.go(check)
    return ck.finish(
        "Every function and method of the public surface that returns a Result is abstractly interpreted with every underlying operation free to "
        "fail at any call. On every path that ends in an error: if a reader, writer, nested tag or factory it used failed, the error is that very "
        "error, wrapped in IOError at most; a failed UTF-8 validation and a malformed ILInt give the error the format assigns; and with no failure "
        "below, the path's facts must entail the reason the format gives for refusing (size over the limit, no creator, another id, left-over "
        "bytes, wrong value size) - a serialiser has no such reason at all.", floor=500)


def check(ck):
    ck.c26 = {}
    for what, k in funcs(ck):
        rt = ck.ip.raw[k]["locals"][0][0]
        if not rt.startswith("std::result::Result<") or any(s in what for s in NOT_HERE) or "::fmt" in what:
            continue
        ck.c26[what] = k
        ck.step(what, one, ck, what, k)


def carried(ck, v, names, plain=True):
    """the abstract errors an error value consists of, with IOError as the only wrapping"""
    if isinstance(v, Opq):
        n = v.name
        if isinstance(n, tuple) and n[0] == "err":
            names.append(n[1][0] if isinstance(n[1], tuple) else n[1])
    elif isinstance(v, Enum) and v.fields and ck.ip.t(v.ty)["variants"][v.var]["name"] == "IOError":
        for f in v.fields:
            carried(ck, f, names)
    return names


def kinds(ck, v):
    """the names of the error variants, outermost first"""
    out = []
    while isinstance(v, Enum):
        out.append(ck.ip.t(v.ty)["variants"][v.var]["name"])
        v = v.fields[0] if v.fields else None
    return out


def one(ck, what, k):
    a, st = start(ck, what, "fn", k)
    own = reasons(what)
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic":
            continue
        if is_ok(o.val) is not False:
            for e in events(o.st, "utf8-unchecked"):
                ck.ob("utf8", what + "/accepted", o.st, ck.ip.models.utf8(o.st, e.seq), "%s does not accept text that is not UTF-8" % what)
            continue
        s = ck.relaxed(o.st)
        bad = [e for e in events(o.st) if e.ok is False]
        e = o.val.fields[0]
        ks = kinds(ck, e)
        deep = [x for x in bad if x.kind in KINDS and not overflow(x)]
        if deep:
            ck.path_ob("carries", what + "/" + deep[-1].kind, s, carried(ck, e, []),
                       "%s fails with the error of what failed below it (%s)" % (what, ", ".join(sorted({x.kind for x in deep}))))
        elif [x for x in bad if overflow(x)]:
            ck.path_ob("ilint", what, s, ks in (["IOError", "CorruptedData"], ["CorruptedData"]) and (ks[0] == "IOError") == (lib(e) == "tags")
                       or what.startswith("ilint::") and ks == ["ValueOverflow"],
                       "%s reports a malformed ILInt as corrupted data" % what)
        elif [x for x in bad if x.kind == "utf8"]:
            ck.path_ob("utf8", what, s, ks in (["CorruptedData"], ["IOError", "CorruptedData"]), "%s reports text that is not UTF-8 as CorruptedData" % what)
        elif not bad and own is not None:
            own(ck, what, a, o.st, e, ks)


def overflow(x):
    return x.kind == "call" and x.d.get("ret") == ("overflow",)


def lib(e):
    return e.ty.replace(CR, "").split("::")[0] if isinstance(e, Enum) else "?"


def reasons(what):
    """what the function may refuse on its own account"""
    m = what.rsplit("::", 1)[-1]
    if "as io::Reader>" in what or "as io::Writer>" in what:
        return None         # C13, C14, C19, C21
    if m.startswith(("serialize", "write", "to_bytes", "signed_encode")):
        return never
    if what.startswith("<" + STD) and m == "deserialize":
        return factory
    if what.startswith("<" + STD) and m == "deserialize_into":
        return factory
    if m == "deserialize_value":
        n = what[1:].split(" ")[0]
        return value if n in FIXED or n in ANYSIZE or n == "ILBigDecTag" else container
    if m in ("deserialize_string_tag_from_value", "deserialize_string_tag_from_value_into"):
        return strtag
    if m.startswith(("deserialize", "read_")) or what.startswith("io::data") or "as io::data" in what or "as tags::serialization" in what:
        return never
    if m == "tag_size_to_usize":
        return toosize
    return None


def never(ck, what, a, st, e, ks):
    ck.path_ob("reason", what, st, False, "%s fails only if something it uses fails" % what)


def toosize(ck, what, a, st, e, ks):
    if ck.path_ob("reason", what, st, ks == ["TagTooLarge"], "%s fails with TagTooLarge" % what):
        ck.ob("reason", what + "/limit", st, ge(a[0], C(MAXTAG + 1)), "%s fails only above 512 MiB" % what)


def value(ck, what, a, st, e, ks):
    n = what[1:].split(" ")[0]
    r = reader_arg(ck, ck.c26[what], a)
    size = [x for x in a if isinstance(x, L)][0]
    if not ck.path_ob("reason", what, st, ks in (["CorruptedData"],) and n not in ANYSIZE, "%s refuses values by itself only as CorruptedData" % what):
        return
    if n == "ILBigDecTag":
        ck.ob("reason", what + "/size", st, ge(C(3), size), "%s refuses only a value too short for a scale" % what)
    elif n == "ILBoolTag":
        s = st.copy()
        if s.assume(eq(size, C(1))):
            b = A(atom("el", (streamname(r), ZERO), 0, 255))
            ck.ob("reason", what + "/byte", s, ge(b, C(2)), "%s refuses only another size than 1 or another byte than 0 or 1" % what)
    else:
        ck.ob("reason", what + "/size", st, ne(size, C(FIXED[n])), "%s refuses only another size than %d" % (what, FIXED[n]))


def container(ck, what, a, st, e, ks):
    n = what[1:].split(" ")[0]
    ok = ks == ["CorruptedData"] or ks == ["TagTooLarge"] and "Dict" in n or ks in (["IOError", "UnableToReadData"], ["IOError", "EndOfData"])
    if not ck.path_ob("reason", what, st, ok, "%s refuses by itself only malformed or truncated values" % what) or n != "ILRangeTag":
        return
    # the one container without a loop: a start and a 16-bit count
    r = reader_arg(ck, ck.c26[what], a)
    size = [x for x in a if isinstance(x, L)][0]
    s = st.copy()
    h = cuts.clen(s, streamname(r), ZERO)
    ck.ob("reason", what + "/size", s, ne(size, h + 2), "%s refuses only another size than that of its ILInt and two bytes" % what)


def strtag(ck, what, a, st, e, ks):
    if not ck.path_ob("reason", what, st, ks in (["CorruptedData"], ["TagTooLarge"]), "%s refuses by itself only as CorruptedData or TagTooLarge" % what):
        return
    sn = streamname(reader_arg(ck, ck.c26[what], a))
    s = st.copy()
    h = cuts.clen(s, sn, ZERO)
    tid = s.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))
    if ks == ["CorruptedData"]:
        ck.ob("reason", what + "/id", s, ne(tid, C(17)), "%s refuses only another id than that of strings as CorruptedData" % what)
    else:
        ck.ob("reason", what + "/limit", s, ge(s.norm(A(atom("fn", ("dec", sn, h), 0, U64))), C(MAXTAG + 1)), "%s refuses only sizes above 512 MiB as TagTooLarge" % what)


def factory(ck, what, a, st, e, ks):
    into = what.endswith("into")
    sn = streamname(a[1])
    s = st.copy()
    h = cuts.clen(s, sn, ZERO)
    tid = s.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))
    allowed = ["CorruptedData", "TagTooLarge", "UnexpectedTagType" if into else "UnknownTag"]
    if not ck.path_ob("reason", what, s, len(ks) == 1 and ks[0] in allowed, "%s refuses by itself only as %s" % (what, ", ".join(allowed))):
        return
    if ks == ["TagTooLarge"]:
        if s.assume(ge(C(15), tid)):
            ck.path_ob("reason", what + "/limit", s, False, "%s never finds implicit values too large" % what)
        else:
            ck.ob("reason", what + "/limit", s, ge(s.norm(A(atom("fn", ("dec", sn, h), 0, U64))), C(MAXTAG + 1)),
                  "%s refuses only sizes above 512 MiB as TagTooLarge" % what)
    elif ks == ["UnexpectedTagType"]:
        ck.ob("reason", what + "/id", s, ne(tid, A(atom("fn", ("tag", "id", ck.ip.models.objname(a[2])), 0, U64))), "%s refuses only another id than the tag's" % what)
    elif ks == ["CorruptedData"]:
        left(ck, what, a, s, tid, sn, h)
    else:
        unknown(ck, what, a, s, tid)


def left(ck, what, a, s, tid, sn, h):
    """the tag was made and read, and did not take all of its value"""
    sv = events(s, "subval")
    if not ck.path_ob("reason", what + "/read", s, sv and sv[-1].ok, "%s refuses a value as CorruptedData only after the tag has read it" % what):
        return
    if not all(s.assume(eq(A(atom("fn", ("tag", "id", e.name), 0, U64)), e.id)) for e in events(s, "create")):
        return
    for i in ILINT_IDS:
        z = s.copy()
        if z.assume(eq(tid, C(i))):
            ck.path_ob("reason", what + "/self", z, False, "%s asks no self-delimiting tag to take nine bytes" % what)
    ck.ob("reason", what + "/left", s, ge(sv[-1].size, sv[-1].n + 1), "%s refuses a value as CorruptedData only if bytes of it are left" % what)


def unknown(ck, what, a, s, tid):
    """its own create_tag makes nothing for the id"""
    k = [i["methods"]["create_tag"].get("key") for i in ck.impls(FACT) if i["self"].endswith(STD) and i["methods"].get("create_tag")]
    if not ck.fact("anchor", STD + "::create_tag", k and k[0] in ck.ip.raw, "ILStandardTagFactory creates tags"):
        return
    for o in ck.run(what + "/create_tag", k[0], [a[0], tid], s) or []:
        if o.kind != "panic":
            v = o.val
            ck.path_ob("reason", what + "/unknown", o.st, isinstance(v, Enum) and v.var == 0, "%s refuses as UnknownTag only ids it creates no tag for" % what)
