"""C04: announced sizes are the sizes serialised."""
from .tags import *


def main():
    ck = Check("C04", "announced size is serialised size")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "For every ILTag implementation in the crate, value_size()/serialize_value() and size()/serialize() are abstractly "
        "interpreted one after the other on the same generic object (any field values, any number of elements: loops "
        "summarised as indexed sums and repetitions); the length of the byte sequence written on every successful path is "
        "proved equal to the announced size. Likewise string_tag_size_from_value against serialize_string_tag_from_value. "
        "The ILInt codec is replaced by the contracts C01 proves.", floor=60)


PAIRS = (("value_size", "serialize_value"), ("size", "serialize"))


def check(ck):
    for name, _, ms in tagtypes(ck):
        for szm, sem in PAIRS:
            k1, k2 = method(ck, name, ms, szm), method(ck, name, ms, sem)
            if k1 and k2:
                ck.step("%s::%s" % (name, szm), pair, ck, "%s::%s" % (name, szm), k1, k2)
    k1 = ck.anchor("tags::standard::explicit::string_tag_size_from_value")
    k2 = ck.anchor("tags::standard::explicit::serialize_string_tag_from_value")
    if k1 and k2:
        ck.step("string_tag", pair, ck, "string_tag_size_from_value", k1, k2)


def pair(ck, key, k1, k2):
    a = ck.args(k2)
    n, u0 = 0, ck.nund
    for o, q in run2(ck, key, k1, k2, a[:1], a):
        if q.kind == "panic" or is_ok(q.val) is not True:
            continue
        n += 1
        ck.path_ob("size", key + "/io", q.st, not failed(q.st, "wr"), "%s: no success after a failed write" % key)
        ck.ob("size", key, q.st, eq(written(q.st).len, o.val), "%s is exactly the number of bytes serialised" % key)
    ck.some(key, n, u0, "%s: serialisation can succeed" % key)
