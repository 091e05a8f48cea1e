"""C21: the std::io adapters and the provided Reader/Writer methods are all-or-nothing."""
from .tags import *

RD, WR, SS = "io::Reader", "io::Writer", "io::std_io::SizedSeek"


def main():
    ck = Check("C21", "std::io adapters")
    ck.go(check)
    return ck.finish(
        "ReadReader, WriteWriter, the blanket impls for Read+Seek and Write+Seek, SizedSeek and the provided methods of Reader and "
        "Writer are abstractly interpreted over abstract std streams that may fail at any call, read or write short, and be positioned "
        "anywhere (past the end included). Success implies that exactly the requested bytes went through, in order; failure implies an "
        "underlying failure, a short transfer or (skip) too little data; a skip moves by exactly the count or, when there is too little "
        "data, not at all; the SizedSeek queries do not move the stream.", floor=80)


def impl(ck, trait, pred):
    for i in ck.impls(trait):
        if pred(i["self"]):
            return i["self"]
    return None


def check(ck):
    for nm, trait, pred in (("ReadReader", RD, lambda s: "ReadReader" in s), ("Read+Seek", RD, lambda s: s == "T"),
                            ("WriteWriter", WR, lambda s: "WriteWriter" in s), ("Write+Seek", WR, lambda s: s == "T")):
        ty = impl(ck, trait, pred)
        if ty is None:
            ck.violation("anchor:" + nm, "the %s implementation for %s is gone" % (trait, nm))
            continue
        for m in ("read", "read_all", "skip", "skip_u64") if trait == RD else ("write", "write_all"):
            k = ck.manchor(trait, ty, m)
            if k:
                what = "%s::%s" % (nm, m)
                f = write if trait == WR else seekskip if nm == "Read+Seek" and m.startswith("skip") else read
                ck.step(what, f, ck, what, k, m)
        if trait == WR:
            k = ck.manchor(trait, ty, "as_writer")
            if k:
                ck.step("%s::as_writer" % nm, as_writer, ck, "%s::as_writer" % nm, k)
    for m in ("read_all", "skip", "skip_u64"):
        k = ck.anchor("io::Reader::" + m)
        if k:
            ck.step("Reader::" + m, read, ck, "provided Reader::" + m, k, m)
    k = ck.anchor("io::Writer::write_all")
    if k:
        ck.step("Writer::write_all", write, ck, "provided Writer::write_all", k, "write_all")
    ty = impl(ck, SS, lambda s: s == "T")
    if ty is None:
        ck.violation("anchor:SizedSeek", "SizedSeek is no longer implemented for every Seek")
    else:
        for m in ("len", "offset", "available", "is_empty"):
            k = ck.manchor(SS, ty, m)
            if k:
                ck.step("SizedSeek::" + m, sized, ck, "SizedSeek::" + m, k, m)


def base(ck, st, p):
    """the abstract stream behind an adapter"""
    v = ck.ip.load(st, p.cell, p.path)
    if isinstance(v, Struct):
        inner = [f for f in v.fields if isinstance(f, Ptr)]
        p = inner[0] if len(inner) == 1 else None
    b = p and ck.ip.models.peek(st, p)
    if b is None:
        raise Undecided("no stream behind the adapter")
    return b


def made(ck, k):
    """args with the adapter object made concrete, so that its stream can be found"""
    a = ck.args(k)
    st = State()
    p = a[0]
    v = ck.ip.load(st, p.cell, p.path)
    if isinstance(v, Opq) and ck.ip.t(v.ty)["k"] == "adt":
        ck.ip.store(st, p.cell, p.path, ck.ip.sym(v.ty, v.name))
    return a, st


def read(ck, what, k, m):
    a, st = made(ck, k)
    src = base(ck, st, a[0])
    n = ONE if m == "read" else a[1] if m.startswith("skip") else ck.ip.models.seqof(st, a[1]).len
    cnt, u0 = 0, ck.nund
    for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
        bad = [e for e in events(q.st) if e.kind in ("rd", "seek") and (not e.ok or e.d.get("via") == "short-read")]
        if is_ok(q.val):
            cnt += 1
            last = failed(q.st, "rd") + failed(q.st, "seek")
            ck.path_ob("success", what, q.st, not last, "%s does not succeed after a failed read" % what)
            ck.ob("consumed", what, q.st, eq(consumed(ck, q.st, src), n), "%s consumes exactly what was asked when it succeeds" % what)
            if m == "read":
                ck.cases(q.st, lambda s: ck.ob("value", what, s, eq(q.val.fields[0], stream_byte(src, 0)), "%s returns the next byte" % what) and None)
            elif m == "read_all":
                same_seq(ck, "value", what, q.st, ck.ip.models.seqof(q.st, a[1]), stream_seq(src, ZERO, n), "the buffer filled by %s" % what)
        else:
            ck.path_ob("failure", what, q.st, bool(bad), "%s fails only when the stream fails" % what)
    ck.some(what, cnt, u0, "%s can succeed" % what)


def write(ck, what, k, m):
    a, st = made(ck, k)
    want = Seq("u8", [(ONE, "e", a[1])]) if m == "write" else ck.ip.models.seqof(st, a[1])
    cnt, u0 = 0, ck.nund
    for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
        bad = failed(q.st, "wr")
        if is_ok(q.val):
            cnt += 1
            ck.path_ob("success", what, q.st, not bad, "%s does not succeed after a failed write" % what)
            same_seq(ck, "written", what, q.st, written(q.st), want, "what %s writes when it succeeds" % what)
        elif not bad:
            ck.path_ob("failure", what + "/tried", q.st, bool(events(q.st, "wr")), "%s fails only after it tried to write" % what)
            ck.ob("failure", what, q.st, ge(want.len - 1, written(q.st).len), "%s fails only when the stream fails or writes short" % what)
    ck.some(what, cnt, u0, "%s can succeed" % what)


def seekskip(ck, what, k, m):
    a, st = made(ck, k)
    src = base(ck, st, a[0])
    ip = ck.ip.models
    p0, n, c = ip.spos(st, src), ip.slen(src), a[1]
    st.assume(ge(C((1 << 63) - 1), p0))      # positions of a Seek are file offsets
    cnt, u0 = 0, ck.nund
    for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
        bad = failed(q.st, "rd") + failed(q.st, "seek")
        moved = ip.spos(q.st, src) + consumed(ck, q.st, src) - p0
        # reads that succeeded had their data: they stay within the stream
        fits = disj([eq(c, ZERO), ge(n, p0 + c)])
        if is_ok(q.val):
            cnt += 1
            ck.path_ob("success", what, q.st, not bad, "%s does not succeed after a failed seek" % what)
            ck.ob("within", what, q.st, fits, "%s succeeds only when there is enough data" % what)
            ck.ob("moved", what, q.st, eq(moved, c), "%s moves by exactly the count" % what)
        elif not bad:
            ck.ob("failure", what, q.st, negc(fits), "%s fails only when a seek fails or there is too little data" % what)
            ck.ob("unmoved", what, q.st, eq(moved, ZERO), "%s leaves the position alone when there is too little data" % what)
            e = err_name(ck.ip, q.val)
            for cond, name in ((eq(p0, n), "EndOfData"), (ge(n - 1, p0), "UnableToReadData")):
                z = q.st.copy()
                if z.assume(cond):
                    ck.ob("kind", what, z, e == name, "%s fails with %s there, not %s" % (what, name, e))
    ck.some(what, cnt, u0, "%s can succeed" % what)


def sized(ck, what, k, m):
    a, st = made(ck, k)
    src = base(ck, st, a[0])
    ip = ck.ip.models
    p0, n = ip.spos(st, src), ip.slen(src)
    cnt, u0 = 0, ck.nund
    for q in no_panic(ck, "panic", what, ck.run(what, k, a, st) or []):
        bad = failed(q.st, "seek")
        if not is_ok(q.val):
            ck.path_ob("failure", what, q.st, bool(bad), "%s fails only when a seek fails" % what)
            continue
        cnt += 1
        v = q.val.fields[0]
        ck.path_ob("success", what, q.st, not bad, "%s does not succeed after a failed seek" % what)
        ck.ob("unmoved", what, q.st, eq(ip.spos(q.st, src), p0), "%s leaves the position alone" % what)
        if m == "is_empty":
            same_bool(ck, "value", what, q.st, v, eq(n, ZERO), "%s says whether the stream is empty" % what)
        elif m == "available":
            for cond, w in ((ge(n, p0), n - p0), (lt(n, p0), ZERO)):
                z = q.st.copy()
                if z.assume(cond):
                    ck.ob("value", what, z, eq(v, w), "%s is the number of bytes to the end" % what)
        else:
            ck.ob("value", what, q.st, eq(v, n if m == "len" else p0), "%s is right" % what)
    ck.some(what, cnt, u0, "%s can succeed" % what)
