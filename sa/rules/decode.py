"""Every entry point that decodes bytes, found in the crate's public surface."""
from .tags import *
from . import c13

RD = ("read", "read_all", "skip", "skip_u64")
MAXTAG = 1 << 29
ILINT_IDS = (10, 14)
IMPLICIT = {0: 0, 1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 4, 7: 4, 8: 8, 9: 8, 11: 4, 12: 8, 13: 16}   # value size by implicit id
SELF_DELIMITING = ("ILILInt64Tag", "ILSignedILInt64Tag")


def entries(ck):
    """(label, kind, body key, detail): kind is value (a tag type's deserialize_value), memory (an in-memory reader's method),
    factory, method (any other trait method that decodes) or fn"""
    for name, ty, ms in tagtypes(ck):
        k = method(ck, name, ms, "deserialize_value")
        if k:
            yield name + "::deserialize_value", "value", k, name
    for i in ck.dump["impls"]:
        tr = (i["trait"] or "").split("<")[0].replace(CR, "")
        if i["self"].endswith("UntouchbleTagFactory"):
            continue        # documented to be a factory that must not be used
        short = i["self"].split("::")[-1]
        mem = [t for t in c13.TYPES if i["self"].split("<")[0] == CR + t]
        for m, c in sorted(i["methods"].items()):
            if tr == "io::Reader" and m in RD or tr.startswith("tags::serialization::") and "eserialize" in m or \
                    tr.startswith("io::data::") and m.startswith("read") or \
                    tr == "tags::ILTagFactory" and m in ("deserialize", "deserialize_into") or tr == "io::std_io::SizedSeek":
                k = c.get("key")
                what = "<%s as %s>::%s" % (short, (i["trait"] or "").replace(CR, ""), m)
                if k in ck.ip.raw:
                    yield what, "memory" if mem else "factory" if tr == "tags::ILTagFactory" else "method", k, mem[0] if mem else m
    for it in ck.items:
        if it["key"] not in ck.ip.raw or it.get("impl_trait") or it.get("trait_default") or not it["vis"]:
            continue
        n = it["name"]
        p = it["path"].replace(CR, "")
        if "RawTagOffset" in p or not (n.startswith(("read_", "decode", "deserialize", "next_tag", "signed_decode")) or n in (
                "decoded_size", "tag_size_to_usize", "implicit_tag_size", "limited_reader_ensure_empty", "goto_end")):
            continue
        if n.startswith("read_only"):
            continue
        yield p, "fn", it["key"], n


def anchors(ck):
    for p in ("ilint::decode", "io::data::read_ilint", "tags::serialization::deserialize_ilint",
              "tags::standard::explicit::deserialize_string_tag_from_value", "tags::raw::RawTagScanner::<'a, T>::next_tag"):
        ck.anchor(p)
    if len([1 for _, kind, _, _ in entries(ck) if kind == "factory"]) < 2:
        ck.violation("anchor:factory", "the standard tag factory does not decode any more")


def start(ck, key, kind, k):
    """arguments and initial state of an entry point; sizes bounded as the callers bound them"""
    a = ck.args(k)
    st = State()
    fn = ck.ip.fn(k)
    alloc = any(s in key.rsplit("::", 1)[-1] for s in ("deserialize_bytes", "string"))
    for i, x in enumerate(a):
        if isinstance(x, L) and fn.locals[i + 1][0] == "usize" and (kind == "value" or alloc):
            st.assume(ge(C(MAXTAG if kind == "value" else (1 << 63) - 1), x))
    return a, st


def reader_arg(ck, k, a):
    """the argument that is the source of the bytes"""
    fn = ck.ip.fn(k)
    for i, x in enumerate(a):
        t = fn.locals[i + 1][0]
        if isinstance(x, Ptr) and ("dyn il2_iltags::io::Reader" in t or t in ("&mut R", "&mut T")):
            return x
    return None
