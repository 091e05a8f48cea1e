"""C05: what a tag serialises, it reads back."""
from .tags import *
from .c02 import half


def main():
    ck = Check("C05", "tag round trip")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "serialize_value of each tag type is abstractly interpreted on generic contents; the bytes it writes (numbers, byte runs and "
        "repetitions in terms of the contents) become the input of deserialize_value on a second tag whose previous contents are "
        "arbitrary. Reading must succeed, consume exactly those bytes, and leave a tag that serialises to the same bytes and whose "
        "public accessors return the same values. Nested tags are abstract and assumed to round-trip (structural induction); a "
        "generic payload is assumed to.", floor=100)


def check(ck):
    for name, ty, ms in tagtypes(ck):
        ks = [method(ck, name, ms, m) for m in ("serialize_value", "deserialize_value")]
        if None not in ks:
            ck.step(name, trip, ck, name, ty, *ks)


def observers(ck, ty):
    """public methods that only look at a value: fn(&self) -> something"""
    out = []
    for it in ck.items:
        if it.get("impl_self") == ty and not it.get("impl_trait") and it["vis"] and it["key"] in ck.ip.raw:
            fn = ck.ip.fn(it["key"])
            if fn.argc == 1 and fn.locals[1][0].startswith("&") and not fn.locals[1][0].startswith("&mut") and fn.locals[0][0] not in ("()", ty) and \
                    not it["name"].startswith("with_"):
                out.append((it["name"], it["key"]))
    return sorted(out)


def trip(ck, name, ty, ser, des):
    cnt, u0 = 0, ck.nund
    a = ck.args(ser)
    for st in signs(ck, a[0]):
        cnt += onetrip(ck, name, ty, ser, des, a, st)
    ck.some(name, cnt, u0, "%s: the round trip succeeds" % name)


def signs(ck, p):
    """the contents of a tag; 64-bit signed ones split by sign, as w or -1-w"""
    st = State()
    v = ck.ip.load(st, p.cell, p.path)
    alts = [st]
    if isinstance(v, Struct):
        for i, f in enumerate(v.fields):
            if isinstance(f, L) and len(f.t) == 1 and f.c == 0 and f.t[0][1] == 1 and f.t[0][0].lo == -(1 << 63) and f.t[0][0].hi == (1 << 63) - 1:
                w = half(ck)
                nxt = []
                for s in alts:
                    for x in (w, -w - 1):
                        z = s.copy()
                        u = ck.ip.load(z, p.cell, p.path)
                        ck.ip.store(z, p.cell, p.path, Struct(u.ty, u.fields[:i] + (x,) + u.fields[i + 1:], u.fn))
                        nxt.append(z)
                alts = nxt
    return alts


def onetrip(ck, name, ty, ser, des, a, st):
    ip = ck.ip
    cnt = 0
    for o in ck.run(name + "::serialize_value", ser, a, st) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        s = o.st.copy()
        w = written(s, (a[1].cell, a[1].path))
        if not s.assume(ge(C(1 << 29), w.len)):
            continue
        s.log = ()
        b = ck.args(des, a2=w.len)
        r = b[3]
        s.cells[("tape", r.cell, r.path)] = w
        s.cells[("nofail", r.cell, r.path)] = True
        for q in ck.run(name + "::deserialize_value", des, b, s) or []:
            if q.kind == "panic":
                continue        # C08
            if not ck.path_ob("accepted", name, q.st, is_ok(q.val), "%s accepts the value bytes it serialises" % name):
                continue
            cnt += 1
            settle(q.st)
            ck.ob("consumed", name, q.st, eq(consumed(ck, q.st, r), w.len), "%s reads back exactly the bytes it serialised" % name)
            again(ck, name, ser, q.st, b[0], w)
            for m, k in observers(ck, ty):
                observe(ck, name, m, k, a[0], b[0], q.st)
    return cnt


def settle(st):
    """equalities implied by the facts through monotonicity of sums: the number of iterations of a finished loop"""
    for f in list(st.facts):
        f = st.norm(f)
        if len(f.t) == 2 and any(a.kind == "it" for a, _ in f.t):
            s = st.copy()
            if not s.assume(ge(f, ONE)) or s.prove(C(-1)) or sums(s):
                st.assume(eq(f, ZERO))


def sums(s):
    """two sums known equal although one provably has more (positive) terms"""
    for a, v in s.sub.items():
        if a.kind == "sum" and isinstance(v, L) and len(v.t) == 1 and v.c == 0 and v.t[0][0].kind == "sum":
            b = v.t[0][0]
            for x, y in ((a, b), (b, a)):
                for f in s._sumpair(x, y):
                    if s.prove(-s.norm(f) - 1):
                        return True
    return False


def again(ck, name, ser, st, p, w):
    s = st.copy()
    s.log = ()
    a = ck.args(ser, a0=p)
    for o in ck.run(name + "::serialize_value again", ser, a, s) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        got, want = loops.normv(o.st, written(o.st, (a[1].cell, a[1].path))), loops.normv(o.st, w)
        if loops.sameseq(o.st, got, want):
            ck._count("bytes", True)
        else:
            same_seq(ck, "bytes", name, o.st, got, want, "%s serialised again after reading it back" % name)


def observe(ck, name, m, k, pa, pb, st):
    for x in ck.run("%s::%s" % (name, m), k, [pa], st) or []:
        if x.kind == "panic":
            continue
        for y in ck.run("%s::%s" % (name, m), k, [pb], x.st) or []:
            if y.kind != "panic":
                same_value(ck, "observe", "%s::%s" % (name, m), y.st, y.val, x.val, "%s::%s() after reading back" % (name, m))


def same_value(ck, rule, key, st, got, want, msg):
    ip = ck.ip
    if isinstance(want, (bool, Cond)):
        same_bool(ck, rule, key, st, got, as_bool(st, want), msg)
    elif isinstance(want, L):
        ck.ob(rule, key, st, eq(got, want), msg + " is as before")
    elif isinstance(want, Ptr) and isinstance(got, Ptr):
        if got == want:
            ck._count(rule, True)
            return
        x, y = ip.load(st, got.cell, got.path), ip.load(st, want.cell, want.path)
        if isinstance(x, (Struct, Enum)) and loops.samev(st, x, y):
            ck._count(rule, True)
            return
        if got.vt is None and isinstance(x, Opq) and ip.models.ident(st, got) == ip.models.ident(st, want):
            ck._count(rule, True)       # an abstract payload that has been read back
            return
        if isinstance(x, MapV):
            if ip.models.mapof(st, got) == ip.models.mapof(st, want):
                ck._count(rule, True)
            else:
                ck.undecided("%s:%s" % (rule, key), "%s: cannot compare the maps" % msg)
            return
        g, w = ip.models.seqof(st, got), ip.models.seqof(st, want)
        g, w = loops.normv(st, g), loops.normv(st, w)
        if loops.sameseq(st, g, w):
            ck._count(rule, True)
        elif ip.intinfo(w.ety):
            same_seq(ck, rule, key, st, g, w, msg)
        else:
            ck.ob(rule, key + "/len", st, eq(g.len, w.len), "%s has the right length" % msg)
            same_elems(ck, rule, key + "/elements", st, g, w, msg)
    elif loops.samev(st, got, want):
        ck._count(rule, True)
    else:
        ck.undecided("%s:%s" % (rule, key), "%s: cannot compare %s with %s" % (msg, str(got)[:80], str(want)[:80]))


def same_elems(ck, rule, key, st, g, w, msg):
    """equality of the elements at a generic index"""
    i = fresh("idx", 0, 1 << 40)
    st = st.copy()
    if not st.assume(ge(w.len, i + 1)) or not st.assume(ge(g.len, i + 1)):
        ck._count(rule, True)
        return
    try:
        x, y = ck.ip.seqget(st, g, i), ck.ip.seqget(st, w, i)
    except Split:
        x = y = None
    if x is not None and loops.samev(st, x, y):
        ck._count(rule, True)
    else:
        ck.undecided("%s:%s" % (rule, key), "%s: cannot compare element %s with %s" % (msg, str(x)[:120], str(y)[:120]))

