"""C07: decoding a value never reads past the end of its container."""
from .decode import *
import cuts


def main():
    ck = Check("C07", "decoding stays inside the announced size")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "The value decoder of every tag type, the tag factory and the string-tag helpers are abstractly interpreted on arbitrary "
        "bytes and a reader that may fail. Every read the underlying reader is asked for - on successful and failing paths, inside "
        "loops at a generic iteration, and on behalf of nested tags, which may try to read any amount - is an obligation: it ends no "
        "later than the announced value size (of the factory: header plus announced or implicit size; of the two self-delimiting "
        "types: the ILInt itself).", floor=150)


def check(ck):
    for what, kind, k, x in entries(ck):
        if kind == "value" and not x.startswith("ILGenericPayloadTag"):
            ck.step(what, value, ck, what, k, x)
        elif kind == "factory":
            ck.step(what, factory, ck, what, k)
    anchors(ck)


def watch(ck, what, k, a, st, r, f):
    """f(state, event) at every read asked of r, where it happens"""
    n = [0]

    def hook(s, e):
        if e.kind == "rd" and e.obj == (r.cell, r.path):
            n[0] += 1
            f(s, e)
    ck.ip.hook = hook
    try:
        outs = ck.run(what, k, a, st)
    finally:
        ck.ip.hook = None
    return n[0]


def value(ck, what, k, name):
    a, st = start(ck, what, "value", k)
    r = reader_arg(ck, k, a)
    bound = cuts.clen(st, streamname(r), ZERO) if name in SELF_DELIMITING else a[2]
    n, u0 = 0, ck.nund
    n = watch(ck, what, k, a, st, r, lambda s, e: ck.ob(
        "inside", what, s, ge(bound, e.pos + e.n), "%s reads only inside its value" % what, e.site))
    if name != "ILNullTag":
        ck.some(what, n, u0, "%s reads its value" % what)


def factory(ck, what, k):
    a, st = start(ck, what, "factory", k)
    r = a[1]
    sn = streamname(r)

    def each(s, e):
        h = cuts.clen(s, sn, ZERO)
        tag = s.norm(A(atom("fn", ("dec", sn, ZERO), 0, U64)))
        for i in range(15):
            z = s.copy()
            if z.assume(eq(tag, C(i))):
                ck.ob("inside", "%s/%d" % (what, i), z, ge(h + IMPLICIT.get(i, 9), e.pos + e.n),
                      "%s reads no further than the value of the implicit id %d" % (what, i), e.site)
        z = s.copy()
        if z.assume(ge(tag, C(16))):
            h2 = cuts.clen(z, sn, h)
            sz = z.norm(A(atom("fn", ("dec", sn, h), 0, U64)))
            ck.ob("inside", what + "/explicit", z, ge(h + h2 + sz, e.pos + e.n),
                  "%s reads no further than the header and the announced size" % what, e.site)
    u0 = ck.nund
    ck.some(what, watch(ck, what, k, a, st, r, each), u0, "%s reads" % what)
