"""C15: standard ids, types, sizes and constructors agree with one another and with the standard."""
from .tags import *
from .stdtags import *
from .decode import IMPLICIT, ILINT_IDS

ENG = "tags::ILTagCreatorEngine"
FAC = "tags::standard::factory::"


def main():
    ck = Check("C15", "standard ids, types and sizes")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "The registry create_std_engine builds (and the one inside ILStandardTagFactory::new) is interpreted into an abstract map, and "
        "create_tag is interpreted on it for every id from 0 to 31 and for a generic id: each standard id must yield a tag of the type the "
        "standard assigns, reporting that id. The constructors of every tag type are interpreted on generic arguments and the id of what "
        "they make is compared with the standard id, or with the id asked for. implicit_tag_size, value_size() of the implicit types, "
        "is_implicit_tag/is_reserved_tag and their methods are compared with the standard's table on every id.", floor=250)


def check(ck):
    types = {ty: (name, ms) for name, ty, ms in tagtypes(ck)}
    for i, t in sorted(IDS.items()):
        if PRE + t not in types:
            ck.violation("anchor:" + t, "the standard tag type %s is gone" % t)
            return
    ck.step("engine", engine, ck, types)
    ck.step("factory", factory, ck, types)
    for ty, (name, ms) in sorted(types.items()):
        if ms.get("id"):
            ck.step("ctors " + name, ctors, ck, ty, name, ms)
    ck.step("sizes", sizes, ck, types)
    ck.step("classes", classes, ck, types)


def tag_of(ck, st, v):
    """(type, pointer) of the boxed tag in Some(_)"""
    if not isinstance(v, Enum) or v.var != 1:
        return None, None
    p = v.fields[0]
    x = ck.ip.load(st, p.cell, p.path)
    return (p.vt or (x.ty if isinstance(x, Struct) else None)), p


def tag_id(ck, what, st, p, types, ty):
    k = types[ty][1].get("id")
    return [(o.st, o.val) for o in ck.run(what + " id()", k, [p], st) or [] if o.kind != "panic"]


def creation(ck, what, types, key, self, st):
    """create_tag on a registry of the standard tags, for every reserved id and any other"""
    for i in list(range(32)) + [None]:
        t = C(i) if i is not None else fresh("id", 32, U64)
        w = "%s/%s" % (what, i if i is not None else "other")
        for o in no_panic(ck, "create", w, ck.run(w, key, [self, t], st) or []):
            ty, p = tag_of(ck, o.st, o.val)
            if i not in IDS:
                if ty is not None:
                    ck.path_ob("unassigned", w, o.st, ty == CR + "tags::ILRawTag" and i != 15,
                               "%s: an id the standard does not assign is not created as %s" % (what, ty))
                continue
            if ck.path_ob("type", w, o.st, ty == PRE + IDS[i], "%s creates a %s for id %d, not %s" % (what, IDS[i], i, ty)):
                for s, x in tag_id(ck, w, o.st, p, types, ty):
                    ck.ob("id", w, s, eq(x, t), "%s: the tag created for id %d has that id" % (what, i))


def engine(ck, types):
    k, ct = ck.anchor(FAC + "create_std_engine"), ck.anchor(ENG + "::create_tag")
    if not (k and ct):
        return
    for o in no_panic(ck, "create", "create_std_engine", ck.run("create_std_engine", k, ck.args(k)) or []):
        s = o.st.copy()
        creation(ck, "create_std_engine", types, ct, Ptr(ck.ip.newcell(s, o.val, CR + ENG, "obj")), s)


def factory(ck, types):
    k = ck.anchor(FAC + "ILStandardTagFactory::new")
    ct = ck.manchor("tags::ILTagFactory", FAC + "ILStandardTagFactory", "create_tag")
    if not (k and ct):
        return
    for o in no_panic(ck, "create", "ILStandardTagFactory::new", ck.run("ILStandardTagFactory::new", k, ck.args(k)) or []):
        s = o.st.copy()
        creation(ck, "ILStandardTagFactory", types, ct, Ptr(ck.ip.newcell(s, o.val, CR + FAC + "ILStandardTagFactory", "obj")), s)


def constructors(ck, ty):
    """public functions that make a value of this type: (name, key)"""
    for it in ck.items:
        if it.get("impl_self") == ty and not it.get("impl_trait") and it["vis"] and it["key"] in ck.ip.raw:
            fn = ck.ip.fn(it["key"])
            if fn.locals[0][0] == ty and not (fn.argc and fn.locals[1][0].lstrip("&").replace("mut ", "") == ty):
                yield it["name"], it["key"]
    for tr, m in (("std::default::Default", "default"), ("tags::DefaultWithId", "default_with_id")):
        k = ck.meth(tr, ty, m)
        if k:
            yield m, k


def ctors(ck, ty, name, ms):
    std = {PRE + t: i for i, t in IDS.items()}.get(ty)
    for m, k in constructors(ck, ty):
        fn = ck.ip.fn(k)
        what = "%s::%s" % (name, m)
        a = ck.args(k)
        st = State()
        for x, (t, _) in zip(a, fn.locals[1:]):
            if t == "usize":
                st.assume(ge(C(1 << 40), x))        # a capacity that can exist
        want = C(std) if std is not None else None
        if "id" in m or std is None:
            if not fn.argc or fn.locals[1][0] != "u64":
                continue
            want = a[0]
            if name in ("ILBigDecTag", "ILRawTag"):
                st.assume(ge(want, C(16)))          # documented: a raw tag cannot be implicit
        if want is None:
            continue
        n, u0 = 0, ck.nund
        for o in no_panic(ck, "ctor", what, ck.run(what, k, a, st) or []):
            n += 1
            s = o.st.copy()
            p = Ptr(ck.ip.newcell(s, o.val, ty, "obj"))
            for q in ck.run(what + " id()", ms["id"], [p], s) or []:
                if q.kind != "panic":
                    ck.ob("ctor", what, q.st, eq(q.val, want), "%s makes a tag of id %s" % (what, want))
        ck.some(what, n, u0, "%s can make a tag" % what)


def sizes(ck, types):
    k = ck.anchor("tags::standard::implicit::implicit_tag_size")
    if k:
        for i in list(range(16)):
            want = 9 if i in ILINT_IDS else IMPLICIT.get(i, 0)
            for s, x in obs(ck, "sizes", "implicit_tag_size", k, [C(i)], State()):
                ck.ob("sizes", "implicit_tag_size/%d" % i, s, eq(x, C(want)), "the implicit size of id %d is %d" % (i, want))
    for i, n in sorted(IMPLICIT.items()):
        name, ms = types[PRE + IDS[i]]
        kv = method(ck, name, ms, "value_size")
        if kv:
            for s, x in obs(ck, "sizes", name + "::value_size", kv, ck.args(kv), State()):
                ck.ob("sizes", name, s, eq(x, C(n)), "the value of %s always occupies %d bytes" % (name, n))


def classes(ck, types):
    for n, top in (("is_implicit_tag", 15), ("is_reserved_tag", 31)):
        k = ck.anchor("tags::" + n)
        if k:
            t = fresh("id", 0, U64)
            for s, x in obs(ck, "classes", n, k, [t], State()):
                same_bool(ck, "classes", n, s, x, ge(C(top), t), "%s holds exactly for ids up to %d" % (n, top))
    for ty, (name, ms) in sorted(types.items()):
        for m, top in (("is_implicity", 15), ("is_reserved", 31)):
            k = ms.get(m)
            if not k or not ms.get("id"):
                continue
            a = ck.args(ms["id"])
            for o in ck.run(name + " id()", ms["id"], a) or []:
                if o.kind == "panic":
                    continue
                for s, x in obs(ck, "classes", "%s::%s" % (name, m), k, a, o.st):
                    same_bool(ck, "classes", "%s::%s" % (name, m), s, x, ge(C(top), o.val), "%s::%s says whether the id is at most %d" % (name, m, top))
