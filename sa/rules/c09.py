"""C09: what decoding allocates up front is bounded."""
from .decode import *


def main():
    ck = Check("C09", "decoding bounds its allocations")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "Every decoding entry point is abstractly interpreted on arbitrary bytes; every allocation or reservation whose size is computed "
        "(vec![_; n], with_capacity, reserve, resize, map reservations) is an obligation at the point where it happens, on every path: "
        "a byte buffer never exceeds the 512 MiB cap on tag sizes (or the size the caller itself passed), and no collection is "
        "reserved for more elements than the value has bytes.", floor=40)


def check(ck):
    for what, kind, k, x in entries(ck):
        if kind != "memory":
            ck.step(what, one, ck, what, kind, k, x)
    anchors(ck)


def one(ck, what, kind, k, x):
    a, st = start(ck, what, kind, k)
    sizes = [v for v in a if isinstance(v, L)]
    n = [0]

    def hook(s, e):
        if e.kind != "alloc":
            return
        n[0] += 1
        if e.ety == "u8":
            ok = [ge(C(MAXTAG), e.n)] + ([ge(v, e.n) for v in sizes])
            ck.ob("bytes", what, s, disj_(s, ok), "%s allocates at most 512 MiB, or what it was asked for" % what, e.site)
        else:
            ok = [ge(v, e.n) for v in sizes] or [ge(C(MAXTAG), e.n)]
            ck.ob("elements", what, s, disj_(s, ok), "%s reserves room for no more elements than the value has bytes" % what, e.site)
    ck.ip.hook = hook
    try:
        ck.run(what, k, a, st)
    finally:
        ck.ip.hook = None
    if not n[0]:
        ck._count("none", True)


def disj_(s, conds):
    """a condition already known to hold, or the last one"""
    for c in conds:
        if s.decide(c) is True:
            return c
    return conds[0]
