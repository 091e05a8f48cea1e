"""C23: decoding replaces the contents of its destination."""
from .decode import *
from .c05 import observers, settle
from values import sh

OUTS = ("&mut std::vec::Vec<u8>", "&mut std::string::String", "&mut [u8]")


def main():
    ck = Check("C23", "decoding replaces old contents")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "deserialize_value of each tag type is abstractly interpreted on any input bytes and a tag with arbitrary previous contents; on every "
        "successful path the public accessors and the serialisation must be functions of the bytes read only: no term of their value may depend on "
        "the previous contents, and id() must be unchanged. Where a term does, two runs that differ in the previous contents are compared. "
        "The same is checked for every decoding function that fills a buffer given by its caller.", floor=60)


def check(ck):
    for name, ty, ms in tagtypes(ck):
        k = method(ck, name, ms, "deserialize_value")
        if k:
            ck.step(name, tagone, ck, name, ty, ms, k)
    n = 0
    for what, kind, k, m in entries(ck):
        fn = ck.ip.fn(k)
        ix = [i for i in range(fn.argc) if any(fn.locals[i + 1][0].replace("'_ ", "") == t for t in OUTS)]
        if kind in ("value", "memory") or what.endswith("::read") or not ix or not fn.locals[0][0].startswith("std::result::Result<()"):
            continue
        if "io::Reader>::read_all" in what or "io::ReadReader" in what:
            continue            # C13, C21: what a reader hands out
        n += 1
        ck.step(what, buffers, ck, what, kind, k, ix)
    if n < 2:
        ck.violation("anchor:buffers", "the decoders that fill a buffer are gone")


def buffers(ck, what, kind, k, ix):
    a, st = start(ck, what, kind, k)
    n, u0 = 0, ck.nund
    olds = ["(p,%d,%d)" % (ck.n, i) for i in ix]
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        n += 1
        for i, old in zip(ix, olds):
            keep = a[i].rng[1].deep_atoms() if a[i].rng is not None else ()     # the length of a slice
            fresh_of(ck, "buffer", what, o.st, a[i], old, keep)
    ck.some(what, n, u0, "%s can succeed" % what)


def tagone(ck, name, ty, ms, k):
    ip = ck.ip
    a, st = start(ck, name + "::deserialize_value", "value", k)
    old = "(p,%d,0)" % ck.n
    before = ident0(ck, name, ms, a[0], st)
    n, u0 = 0, ck.nund
    for o in ck.run(name + "::deserialize_value", k, a, st) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        n += 1
        settle(o.st)
        q = o.st.copy()
        q.log = ()
        if before is not None:
            for x in ck.run(name + "::id", ms["id"], [a[0]], q) or []:
                if x.kind != "panic" and isinstance(x.val, L):
                    ck.ob("id", name, x.st, eq(x.val, before), "%s::id() is not changed by reading a value" % name)
        keep = tuple(x for x in (before.deep_atoms() if before is not None else ()))
        maps = False
        for m, key in observers(ck, ty):
            if m == "id":
                continue
            for x in ck.run("%s::%s" % (name, m), key, [a[0]], q) or []:
                if x.kind != "panic":
                    maps |= ismap(ck, x)
                    fresh_of(ck, "observe", "%s::%s" % (name, m), x.st, x.val, old, keep)
        s = ms.get("serialize_value")
        if s and not maps and "ILGenericPayloadTag<" not in ty:      # an abstract payload: see above
            # (the entries of a map are all its accessor shows)
            b = ck.args(s, a0=a[0])
            for x in ck.run(name + "::serialize_value", s, b, q) or []:
                if x.kind != "panic" and is_ok(x.val) is True:
                    fresh_of(ck, "bytes", name + "::serialize_value", x.st, loops.normv(x.st, written(x.st, (b[1].cell, b[1].path))), old, keep)
    ck.some(name, n, u0, "%s can be decoded" % name)


def ismap(ck, x):
    try:
        return isinstance(x.val, Ptr) and isinstance(ck.ip.load(x.st, x.val.cell, x.val.path), MapV)
    except GiveUp:
        return False


def ident0(ck, name, ms, p, st):
    r = None
    for o in ck.run(name + "::id", ms["id"], [p], st) or [] if ms.get("id") in ck.ip.raw else []:
        if o.kind != "panic" and isinstance(o.val, L):
            r = o.val
    return r


def fresh_of(ck, rule, key, st, v, old, keep):
    """v does not depend on the contents named `old`"""
    ip = ck.ip
    msg = "%s after decoding does not depend on what was there before" % key
    for _ in range(3):
        if isinstance(v, Ptr) and v.vt is None:
            try:
                if v.rng is not None:
                    v = ip.ptrseq(st, v)
                    break
                w = ip.load(st, v.cell, v.path)
            except GiveUp:
                break
            if isinstance(w, Opq) and not ip.is_seq(w.ty):
                nm, ver = ip.models.ident(st, v)[:2]
                if old in str(nm):
                    ck.path_ob(rule, key, st, bool(ver), msg)
                else:
                    ck._count(rule, True)
                return
            v = ip.models.mapof(st, v) if isinstance(w, MapV) else w if not isinstance(w, Opq) else ip.sym(w.ty, w.name)
    v = loops.normv(st, v)
    bad = mention(v, old, keep)
    if not bad:
        ck._count(rule, True)
        return
    if isinstance(v, MapV):
        if v.base is not None and old in sh(v.base):
            # entries that were there before; the map may have been empty
            return ck.ob(rule, key, st, eq(ip.models.maplen(st, MapV(v.ty, v.base)), ZERO), msg)
        return ck.undecided("%s:%s" % (rule, key), msg + ": cannot tell for %s" % str(v.ins)[:120])
    s = st.copy()
    ren = {x: fresh("old", x.lo, x.hi) for x in allatoms(s, v) if base_of(x, old) and x not in keep}
    for f in list(s.facts):
        g = rewrite(f, ren, {})
        if g != f and not s.assume(ge(g, ZERO)):
            return ck._count(rule, True)
    if isinstance(v, (bool, Cond)):
        c = as_bool(s, v)
        d = rewrite(c, ren, {})
        if s.assume(c):
            ck.ob(rule, key, s, d, msg)
        return
    if isinstance(v, L):
        return ck.ob(rule, key, s, eq(v, rewrite(v, ren, {})), msg)
    if isinstance(v, Seq):
        if ck.ob(rule, key + "/len", s, eq(v.len, rewrite(v.len, ren, {})), "the length of " + msg) is not True or not ip.intinfo(v.ety):
            return
        i = fresh("idx", 0, 1 << 40)
        if s.assume(ge(v.len, i + 1)):
            def each(z):
                x = ip.seqget(z, v, i)
                r = {y: fresh("old", y.lo, y.hi) for y in x.deep_atoms() if base_of(y, old) and y not in ren and y not in keep} if isinstance(x, L) else {}
                ck.ob(rule, key, z, eq(x, rewrite(x, {**ren, **r}, {})), "a byte of " + msg)
            ck.cases(s, each)
        return
    ck.undecided("%s:%s" % (rule, key), msg + ": cannot tell for %s" % str(v)[:120])


def mention(v, old, keep):
    if old not in str(v):
        return False
    if isinstance(v, L):
        return any(old in sh(x.args) and x not in keep for x in v.deep_atoms())
    return True


def allatoms(st, v):
    out = set()
    for f in st.facts:
        out |= f.deep_atoms()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Atom):
            out |= {x} | set(x.deep)
        elif hasattr(x, "deep_atoms"):
            out |= x.deep_atoms()
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Seq):
            stack.extend(x.segs)
        elif isinstance(x, Struct):
            stack.extend(x.fields)
    return out


def base_of(x, old):
    """an atom that names old contents itself (not a compound over such atoms)"""
    return x.kind in ("in", "el", "fn") and old in sh(x.args) and not any(y is not x and y.kind in ("in", "el", "fn") and old in sh(y.args) for y in x.deep)
