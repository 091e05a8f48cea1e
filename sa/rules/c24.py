"""C24: tag objects hold what is put into them."""
from .tags import *
from .c05 import observers, same_value
from .c15 import constructors

FIELDS = {"ILBigDecTag": ["scale", "value"], "ILRangeTag": ["start", "count"], "ILVersionTag": ["major", "minor", "revision", "build"]}
DICT = ("ILDictTag", "ILStrDictTag")
MAPCAP = 1 << 40


def main():
    ck = Check("C24", "tags hold what is put into them")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "Every public constructor and setter of the tag types is abstractly interpreted with arbitrary arguments on an object with arbitrary contents, followed by "
        "every accessor: the accessors of what was given return it unchanged, all others and id() return what they returned before; constructors without "
        "a value make a zero or empty one. A fresh symbol stored through mut_value() is what value() then returns. For the dictionaries, insert, get, len and is_empty are "
        "checked against the map they stand for, for the key inserted and for any other key.", floor=300)


def check(ck):
    for name, ty, ms in tagtypes(ck):
        obsv = dict(observers(ck, ty))
        fs = [f for f in FIELDS.get(name, ["value"]) if f in obsv]
        if name in FIELDS and len(fs) != len(FIELDS[name]):
            ck.violation("anchor:" + name, "accessors of %s are gone: %s" % (name, sorted(set(FIELDS[name]) - set(fs))))
        if "ILGenericPayloadTag" in ty:
            ck.step(name, payload, ck, name, ty)
            continue
        pub = {it["name"]: it["key"] for it in ck.items if it.get("impl_self") == ty and not it.get("impl_trait") and it["vis"] and it["key"] in ck.ip.raw}
        for m, k in constructors(ck, ty):
            ck.step("%s::%s" % (name, m), ctor, ck, name, ty, ms, m, k, fs, obsv)
        for m, k in sorted(pub.items()):
            if m.startswith("set_"):
                ck.step("%s::%s" % (name, m), setter, ck, name, ty, ms, m, k, fs, obsv)
        if "mut_value" in pub and "value" in obsv:
            ck.step(name + "::mut_value", through, ck, name, ty, pub["mut_value"], obsv["value"])
        if name == "ILVersionTag" and "value" in obsv:
            ck.step(name + "::value", version, ck, name, obsv, fs)
        if name in DICT:
            ck.step(name, dictionary, ck, name, pub, ms)


def look(ck, name, m, k, p, st):
    """[(state, value of observer m)]"""
    return [(o.st, o.val) for o in ck.run("%s::%s" % (name, m), k, [p], st) or [] if o.kind != "panic"]


def start(ck, k, name, hasid):
    a = ck.args(k)
    st = State()
    fn = ck.ip.fn(k)
    for i, x in enumerate(a):
        if isinstance(x, L) and fn.locals[i + 1][0] == "usize":
            st.assume(ge(C(MAPCAP), x))
    if hasid and a and name in ("ILBigDecTag", "ILRawTag"):
        st.assume(ge(a[0], C(16)))      # documented: such a tag cannot be implicit
    return a, st


def ctor(ck, name, ty, ms, m, k, fs, obsv):
    fn = ck.ip.fn(k)
    hasid = fn.argc > 0 and fn.locals[1][0] == "u64" and ("id" in m or name == "ILRawTag")
    a, st = start(ck, k, name, hasid)
    vals = a[1:] if hasid else a
    if "capacity" in m:
        vals = []
    what = "%s::%s" % (name, m)
    n, u0 = 0, ck.nund
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic":
            continue
        n += 1
        s = o.st.copy()
        p = Ptr(ck.ip.newcell(s, o.val, ty, "obj"))
        expect(ck, what, name, fs, obsv, p, s, vals, "slice" in m)
    ck.some(what, n, u0, "%s can make a tag" % what)


def expect(ck, what, name, fs, obsv, p, st, vals, slice_):
    """the accessors return vals, or zero"""
    if slice_:
        for s, v in look(ck, name, "value", obsv["value"], p, st):
            same_value(ck, "stored", what + "/value", s, v, vals[0], "%s::value() after %s" % (name, what))
        seq = ck.ip.models.seqof(st, vals[0])
        for i, f in enumerate(fs):
            for s, v in look(ck, name, f, obsv[f], p, st):
                same_value(ck, "stored", "%s/%s" % (what, f), s, v, ck.ip.seqget(s, seq, C(i)), "%s::%s() after %s" % (name, f, what))
        return
    if vals and len(vals) != len(fs):
        return ck.undecided("stored:" + what, "%s takes %d values for the accessors %s" % (what, len(vals), ", ".join(fs)))
    for i, f in enumerate(fs):
        for s, v in look(ck, name, f, obsv[f], p, st):
            if vals:
                same_value(ck, "stored", "%s/%s" % (what, f), s, v, vals[i], "%s::%s() after %s" % (name, f, what))
            else:
                zero(ck, "%s/%s" % (what, f), s, v, "%s::%s() after %s is zero or empty" % (name, f, what))
    if not vals:
        for f, k in obsv.items():
            if f == "is_empty":
                for s, v in look(ck, name, f, k, p, st):
                    ck.ob("zero", "%s/%s" % (what, f), s, as_bool(s, v), "%s makes an empty tag" % what)


def zero(ck, key, st, v, msg):
    ip = ck.ip
    if isinstance(v, (bool, Cond)):
        return ck.ob("zero", key, st, negc(v), msg)
    if isinstance(v, L):
        return ck.ob("zero", key, st, eq(v, ZERO), msg)
    if isinstance(v, Ptr):
        x = ip.load(st, v.cell, v.path)
        if isinstance(x, MapV):
            return ck.ob("zero", key, st, eq(ip.models.maplen(st, ip.models.mapof(st, v)), ZERO), msg)
        s = loops.normv(st, ip.models.seqof(st, v))
        if s.len.const is not None and 0 < s.len.const <= 64:
            for i in range(s.len.const):
                x = ip.seqget(st, s, C(i))
                ck.ob("zero", "%s/%d" % (key, i), st, eq(x, ZERO), msg)
            return
        return ck.ob("zero", key, st, eq(s.len, ZERO), msg)
    ck.undecided("zero:" + key, msg + ": %s" % str(v)[:100])


def setter(ck, name, ty, ms, m, k, fs, obsv):
    fn = ck.ip.fn(k)
    a = ck.args(k)
    what = "%s::%s" % (name, m)
    f = m[4:]
    slice_ = "slice" in m
    sets = fs if f == "value" and len(a) - 1 == len(fs) or slice_ else [f] if f in fs else None
    if sets is None:
        return ck.undecided("stored:" + what, "no accessor for %s" % what)
    others = [(x, obsv[x]) for x in fs if x not in sets] + ([("id", ms["id"])] if ms.get("id") in ck.ip.raw else [])
    n, u0 = 0, ck.nund
    before = [(State(), ())]
    for x, key in others:
        before = [(s2, vs + (v,)) for s, vs in before for s2, v in look(ck, name, x, key, a[0], s)]
    for s, vs in before:
        for o in ck.run(what, k, a, s) or []:
            if o.kind == "panic":
                continue
            n += 1
            if slice_ or len(sets) == len(fs):
                expect(ck, what, name, fs, obsv, a[0], o.st, a[1:], slice_)
            else:
                for z, v in look(ck, name, f, obsv[f], a[0], o.st):
                    same_value(ck, "stored", what + "/" + f, z, v, a[1], "%s::%s() after %s" % (name, f, what))
            for (x, key), old in zip(others, vs):
                for z, v in look(ck, name, x, key, a[0], o.st):
                    same_value(ck, "others", what + "/" + x, z, v, old, "%s::%s() after %s" % (name, x, what))
    ck.some(what, n, u0, "%s can set" % what)


def through(ck, name, ty, km, kv):
    """a fresh symbol stored through mut_value() is what value() returns"""
    ip = ck.ip
    a = ck.args(km)
    n, u0 = 0, ck.nund
    for o in ck.run(name + "::mut_value", km, a) or []:
        if o.kind == "panic":
            continue
        q = o.val
        t = ip.fn(km).locals[0][0]
        t = t.replace("&mut ", "", 1)
        s = o.st.copy()
        n += 1
        if not isinstance(q, Ptr):
            ck.undecided("through:" + name, "mut_value() returns %s" % str(q)[:80])
            continue
        new = ip.sym(t, ("w", name, ck.n))
        cur = ip.load(s, q.cell, q.path)
        if isinstance(new, Opq) and isinstance(cur, MapV):
            new = MapV(cur.ty, ("w", name, ck.n))
        ip.store(s, q.cell, q.path, new)
        r = Ptr(ip.newcell(s, new, t, "new"))
        for z, v in look(ck, name, "value", kv, a[0], s):
            same_value(ck, "through", name, z, v, r, "%s::value() after a change through mut_value()" % name)
    ck.some(name + "::mut_value", n, u0, "%s::mut_value gives access" % name)


def version(ck, name, obsv, fs):
    a = ck.args(obsv["value"])
    for s, v in look(ck, name, "value", obsv["value"], a[0], State()):
        for i, f in enumerate(fs):
            for z, x in look(ck, name, f, obsv[f], a[0], s):
                seq = ck.ip.models.seqof(z, v)
                ck.ob("version", f, z, eq(x, ck.ip.seqget(z, seq, C(i))), "ILVersionTag::value()[%d] is %s()" % (i, f))


def payload(ck, name, ty):
    """payload(), mut_payload() and dereferencing all give the same object"""
    ks = {it["name"]: it["key"] for it in ck.items if it.get("impl_self") == ty and not it.get("impl_trait") and it["vis"] and it["key"] in ck.ip.raw}
    for tr, m in (("std::ops::Deref", "deref"), ("std::ops::DerefMut", "deref_mut")):
        k = ck.meth(tr, ty, m)
        if k:
            ks[m] = k
    at = {}
    for m in ("payload", "mut_payload", "deref", "deref_mut"):
        if m not in ks:
            ck.violation("anchor:%s::%s" % (name, m), "%s::%s is gone" % (name, m))
            continue
        for o in ck.run("%s::%s" % (name, m), ks[m], [at.setdefault("self", ck.args(ks[m])[0])]) or []:
            if o.kind != "panic":
                r = (o.val.cell, o.val.path) if isinstance(o.val, Ptr) else None
                ck.path_ob("payload", "%s::%s" % (name, m), o.st, r is not None and at.setdefault("r", r) == r, "%s::%s gives the one payload of the tag" % (name, m))


def opt(v):
    """(is Some, contents) of an Option value"""
    if isinstance(v, Enum):
        return v.var == 1, v.fields[0] if v.var == 1 else None
    return None, None


def dictionary(ck, name, pub, ms):
    ip = ck.ip
    miss = [m for m in ("insert", "get", "len", "is_empty", "value") if m not in pub]
    if miss:
        return ck.violation("anchor:" + name, "%s of %s is gone" % (", ".join(miss), name))
    a = ck.args(pub["insert"])
    other = ck.args(pub["get"])[1]
    # reading agrees with the map
    for s, v in look(ck, name, "value", pub["value"], a[0], State()):
        m = ip.models.mapof(s, v)
        n = ip.models.maplen(s, m)
        for z, x in look(ck, name, "len", pub["len"], a[0], s):
            ck.ob("dict", name + "::len", z, eq(x, n), "%s::len() is the number of entries" % name)
        for z, x in look(ck, name, "is_empty", pub["is_empty"], a[0], s):
            same_bool(ck, "dict", name + "::is_empty", z, x, eq(n, ZERO), "%s::is_empty() says whether there is no entry" % name)
    ok = 0
    u0 = ck.nund
    # look up the key and another one, insert, look both up again
    for g in ck.run(name + "::get", pub["get"], [a[0], a[1]], State()) or []:
        if g.kind == "panic":
            continue
        for h in ck.run(name + "::get", pub["get"], [a[0], other], g.st) or []:
            if h.kind == "panic":
                continue
            for o in ck.run(name + "::insert", pub["insert"], a, h.st) or []:
                if o.kind == "panic":
                    continue
                ok += 1
                inserted(ck, name, pub, a, other, g.val, h.val, o)
    ck.some(name + "::insert", ok, u0, "%s::insert can insert" % name)


def inserted(ck, name, pub, a, other, was, hwas, o):
    had, old = opt(was)
    ret, rv = opt(o.val)
    if had is not None and ret is not None:
        ck.path_ob("dict", name + "::insert/previous", o.st, had == ret, "%s::insert returns the previous value of the key, if there was one" % name)
        if had and ret:
            if isinstance(rv, Seq):
                t = o.st.copy()
                rv = Ptr(ck.ip.newcell(t, rv, "std::string::String", "ret"))
                sameval(ck, "dict", name + "::insert/previous value", t, rv, old, "what %s::insert returns" % name)
            else:
                sameval(ck, "dict", name + "::insert/previous value", o.st, rv, old, "what %s::insert returns" % name)
    for q in ck.run(name + "::get", pub["get"], [a[0], a[1]], o.st) or []:
        if q.kind == "panic":
            continue
        got, v = opt(q.val)
        if got is None:
            ck.undecided("dict:%s::get" % name, "get returns %s" % str(q.val)[:80])
            continue
        if ck.path_ob("dict", name + "::get/found", q.st, got, "%s::get finds a key that was inserted" % name):
            sameval(ck, "dict", name + "::get/value", q.st, v, a[2], "%s::get() of a key that was inserted" % name)
    e = ck.ip.models.seqeq(o.st, ck.ip.models.seqof(o.st, a[1]), ck.ip.models.seqof(o.st, other))
    for s in ck.ip.branch(o.st, negc(e)) if e is not None else []:
        for q in ck.run(name + "::get", pub["get"], [a[0], other], s) or []:
            if q.kind == "panic":
                continue
            got, v = opt(q.val)
            had2, old2 = opt(hwas)
            if got is None or had2 is None:
                ck.undecided("dict:%s::get" % name, "get returns %s" % str(q.val)[:80])
                continue
            if ck.path_ob("dict", name + "::get/other", q.st, got == had2, "%s::insert neither adds nor removes another key" % name) and got:
                sameval(ck, "dict", name + "::get/other value", q.st, v, old2, "%s::get() of another key" % name)


def sameval(ck, rule, key, st, got, want, msg):
    ip = ck.ip
    for _ in range(3):
        if isinstance(got, Ptr) and isinstance(want, Ptr) and (got.cell, got.path) == (want.cell, want.path):
            return ck._count(rule, True)
        if isinstance(got, Ptr) and got.vt is None and got.rng is None:
            x = ip.load(st, got.cell, got.path)
            if isinstance(x, Ptr):
                got = x
                continue
        if isinstance(want, Ptr) and want.vt is None and want.rng is None:
            x = ip.load(st, want.cell, want.path)
            if isinstance(x, Ptr):
                want = x
                continue
        break
    if isinstance(got, Ptr) and isinstance(want, Ptr) and (got.cell, got.path) == (want.cell, want.path):
        return ck._count(rule, True)
    if isinstance(got, Ptr) and isinstance(want, Ptr):
        try:
            g, w = ip.models.seqof(st, got), ip.models.seqof(st, want)
        except GiveUp:
            return ck.path_ob(rule, key, st, False, msg + " is what was put in")
        return same_seq(ck, rule, key, st, loops.normv(st, g), loops.normv(st, w), msg)
    ck.undecided("%s:%s" % (rule, key), "%s: cannot compare %s with %s" % (msg, str(got)[:80], str(want)[:80]))
