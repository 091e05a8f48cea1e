"""C08: decoding arbitrary bytes never panics, overflows or indexes out of range."""
from .decode import *


def main():
    ck = Check("C08", "decoding never panics")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "Every decoding entry point of the crate - value deserialisation of each tag type, the tag factories, the string-tag helpers, "
        "the deserializer traits and free functions, the io::data readers, the ILInt decoders, the raw tag scanner and the readers "
        "they all run on - is abstractly interpreted on any input bytes and any reader that may fail at any call. Every assertion, "
        "overflow check, index or slice bound, unwrap, capacity computation and explicit panic reachable in them is an obligation: "
        "none may be reachable. Value sizes range up to the maximum the factory lets through; sizes a caller passes directly up to "
        "isize::MAX; file offsets up to i64::MAX.", floor=150)


def check(ck):
    for what, kind, k, x in entries(ck):
        ck.step(what, one, ck, what, kind, k, x)
    anchors(ck)


def one(ck, what, kind, k, x):
    if kind == "memory":
        for a, s, _, _ in c13.Obj(ck, x).each(what, k):
            no_panic(ck, "panic", what, ck.run(what, k, a, s) or [])
    else:
        a, st = start(ck, what, kind, k)
        no_panic(ck, "panic", what, ck.run(what, k, a, st) or [])
