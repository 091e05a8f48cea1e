"""C28: working with tags never panics.

Every function of the public surface that is not a decoder (C08) and not an operation of one of the objects
with a contract of their own (readers, writers, scanner, windows, creator engine: C13, C14, C16, C19-C22) is
analysed from an arbitrary state of its arguments; no outcome may be a panic. Lengths are at most 2^28 elements
and 2^32 bytes, so that the size of a container (a sum over its elements) fits into 64 bits."""
from .c11 import funcs
from .decode import *
import cuts

ELSEWHERE = ("io::array::", "RawTagOffset", "RawTagScanner", "LimitedReader", "ILTagCreatorEngine", "ByteArrayReader", "VecReader", "VecWriter",
             "ByteArrayWriter", "UntouchbleTagFactory", "std_io", "SizedSeek", "ilint::")
CAPACITY = {"tags::ILRawTag::with_capacity": 1, "tags::standard::explicit::ILByteArrayTag::with_capacity": 0,
            "tags::serialization::ByteArrayDeserializer::deserialize_bytes_into_vec": 1}
IDS = ("tags::ILRawTag::new", "tags::ILRawTag::with_capacity", "tags::ILRawTag::with_value", "<ILRawTag as tags::DefaultWithId>::default_with_id",
       "tags::standard::explicit::ILBigDecTag::with_id", "tags::standard::explicit::ILBigDecTag::with_id_value",
       "<ILBigDecTag as tags::DefaultWithId>::default_with_id")
CREATOR = "<ILDefaultTagCreator<T> as tags::ILTagCreator>::create_empty_tag"


def main():
    ck = Check("C28", "working with tags never panics")
    ck.use_cuts()
    cuts.install_factories(ck)
    ck.ip.small = True
    ck.go(check)
    return ck.finish(
        "Every function of the public surface outside the decoders (C08) and the stateful readers, writers, scanner, windows and creator engine "
        "(C13, C14, C16, C19-C22) - constructors, accessors, setters, size, serialisation, comparison, cloning, downcasting, creators, primitive "
        "reads and writes - is interpreted over its MIR from an arbitrary state of its arguments and arbitrary outcomes of whatever it calls "
        "through a trait. Obligation: no path ends in a panic (explicit panic or assertion, unwrap, index or slice out of range or off a character "
        "boundary, overflow, capacity) whose path facts are consistent. Allowed: a constructor with an explicit id panics only if the id is at most "
        "15; ILDefaultTagCreator only if asked for another id than the type's; capacities asked for are assumed to fit the address space; contents "
        "are of at most 2^28 elements and 2^32 bytes per text or byte sequence.", floor=300)


def check(ck):
    dec = {k for _, _, k, _ in entries(ck)}
    seen = set()
    for what, k in funcs(ck):
        if k in dec or any(s in what for s in ELSEWHERE):
            continue
        seen.add(what)
        ck.step(what, one, ck, what, k)
    for n in tuple(CAPACITY) + IDS + (CREATOR,):
        if n not in seen:
            ck.undecided("anchor:" + n, "%s is not among the functions analysed" % n)


def one(ck, what, k):
    a, st = ck.args(k), State()
    if what in CAPACITY:
        st.assume(ge((1 << 63) - 1, a[CAPACITY[what]]))
    rest = []
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic" and (what in IDS or what == CREATOR):
            if not dead(o.st):
                ck.ob("only", "%s/%s:%s" % (what, o.info["kind"], o.info["where"][0]), o.st, refused(what, o.st, a),
                      "%s panics only on an id it cannot serve" % what, o.info["where"])
        else:
            rest.append(o)
    no_panic(ck, "panic", what, rest)


def refused(what, st, a):
    if what != CREATOR:
        return ge(15, a[0])
    ids = {x for f in st.nes + st.facts for x, _ in f.t if x.kind == "fn" and x.args[:2] == ("tag", "id")}
    for x in sorted(ids, key=lambda x: x.id):
        if st.decide(ne(a[1], A(x))) is True:
            return True
    return False
