"""C16: the creator registry: registrations decide, unknown ids follow the strictness policy."""
from .tags import *

ENG = "tags::ILTagCreatorEngine"
FAC = "tags::standard::factory::ILStandardTagFactory"


def main():
    ck = Check("C16", "tag creator registry and unknown-id policy")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "ILTagCreatorEngine's operations are abstractly interpreted on an engine with arbitrary registrations (an opaque map) and generic "
        "ids and creators, in every order of two operations: what create_tag yields after register or deregister is compared with the "
        "creator registered last for that id, or, for any other id, with what it yielded before; what register and deregister return with "
        "the creator they replace. On a new engine, and in ILStandardTagFactory, ids nobody registered must yield a raw tag of that id "
        "with empty contents exactly if the engine is not strict and the id is not implicit.", floor=25)


def check(ck):
    ks = {n: ck.anchor("%s::%s" % (ENG, n)) for n in ("new", "strict", "register", "deregister", "create_tag")}
    if None in ks.values():
        return
    ck.raw = {ty: ms for name, ty, ms in tagtypes(ck)}
    private(ck, ENG)
    ck.step("new", fresh_engine, ck, ks)
    ck.step("register", register, ck, ks)
    ck.step("deregister", deregister, ck, ks)
    ck.step("pure", pure, ck, ks)
    ck.step("factory", factory, ck, ks)


def creation(ck, what, k, p, t, st):
    """[(state, what create_tag yields)]: ('made', creator) / ('raw', tag) / ('none',)"""
    out = []
    for o in no_panic(ck, "create", what, ck.run(what, k, [p, t], st) or []):
        cr = [e for e in o.st.log[len(st.log):] if e.kind == "create"]
        v = o.val
        if not isinstance(v, Enum):
            raise GiveUp("result of create_tag")
        if v.var != 1:
            out.append((o.st, ("none",)))
            ck.path_ob("create", what + "/dropped", o.st, not cr, "%s: nothing is created and then dropped" % what)
            continue
        q = v.fields[0]
        if cr:
            ck.path_ob("create", what + "/once", o.st, len(cr) == 1, "%s makes one tag" % what)
            ck.ob("create", what + "/id", o.st, eq(cr[0].id, t), "%s passes the id to the creator" % what)
            ck.path_ob("create", what + "/returned", o.st, q.cell == ("x", cr[0].name), "%s returns the tag the creator made" % what)
            out.append((o.st, ("made", cr[0].obj)))
        else:
            out.append((o.st, ("raw", q)))
    return out


def policy(ck, what, s, r, t, strict):
    """nothing is registered for id t"""
    implicit = ge(C(15), t)
    if r[0] == "none":
        ck.ob("policy", what + "/none", s, disj([implicit, ne(strict, ZERO)]), "%s: an unknown explicit id is refused only by a strict engine" % what)
    elif ck.path_ob("policy", what + "/made", s, r[0] == "raw", "%s: a creator registered for another id is not used" % what):
        ck.ob("policy", what + "/raw", s, conj([negc(implicit), eq(strict, ZERO)]),
              "%s: an unknown id yields a raw tag only in a non-strict engine and never for an implicit id" % what)
        raw(ck, what, s, r[1], t)


def raw(ck, what, s, p, t):
    v = ck.ip.load(s, p.cell, p.path)
    ty = p.vt or getattr(v, "ty", None)
    if not ck.path_ob("policy", what + "/type", s, ty == CR + "tags::ILRawTag", "%s: an unknown id yields an ILRawTag, not %s" % (what, ty)):
        return
    ms = ck.raw[ty]
    for m, want in (("id", t), ("value_size", ZERO)):
        if ms.get(m):
            for z, x in obs(ck, "policy", "%s %s" % (what, m), ms[m], [p], s):
                ck.ob("policy", "%s/%s" % (what, m), z, eq(x, want), "%s: the raw tag has that id and is empty" % what)


def boolterm(st, v):
    """a boolean argument as a 0/1 term"""
    if isinstance(v, bool):
        return C(int(v))
    a = sorted(v.deep_atoms(), key=str)
    if len(a) == 1:
        return A(a[0])
    raise GiveUp("boolean argument")


def fresh_engine(ck, ks):
    a = ck.args(ks["new"])
    for o in no_panic(ck, "new", "new", ck.run("new", ks["new"], a) or []):
        s = o.st.copy()
        p = Ptr(ck.ip.newcell(s, o.val, CR + ENG, "obj"))
        for z, x in obs(ck, "new", "strict", ks["strict"], [p], s):
            same_bool(ck, "new", "strict", z, x, as_bool(z, a[0]), "strict() is what the engine was made with")
        t = fresh("id", 0, U64)
        cnt, u0 = {"raw": 0, "none": 0, "made": 0}, ck.nund
        for z, r in creation(ck, "create_tag on a new engine", ks["create_tag"], p, t, s):
            cnt[r[0]] += 1
            policy(ck, "new engine", z, r, t, boolterm(z, a[0]))
        for k in ("raw", "none"):
            ck.some("new/" + k, cnt[k], u0, "a new engine can yield %s" % k)
        c = ck.args(ks["register"], a0=p)
        for q in ck.run("register on a new engine", ks["register"], c, s) or []:
            if q.kind != "panic":
                ck.path_ob("replaced", "new", q.st, isinstance(q.val, Enum) and q.val.var == 0, "the first registration replaces nothing")


def same(ck, rule, what, st, r, want, msg):
    """two outcomes of create_tag are the same"""
    ck.path_ob(rule, what, st, r[0] == want[0] and (r[0] != "made" or r[1] == want[1]), "%s (%s instead of %s)" % (msg, r[0], want[0]))


def previous(ck, what, st, val, before):
    """register/deregister return the creator that was registered"""
    if before[0] == "made":
        ok = isinstance(val, Enum) and val.var == 1 and ck.ip.models.objname(val.fields[0]) == before[1]
    else:
        ok = isinstance(val, Enum) and val.var == 0
    ck.path_ob("replaced", what, st, ok, "%s returns the creator it replaces or removes, if any" % what)


def settled(ck, st, p, v):
    """creator objects are known by identity"""
    return ck.ip.models.objname(v)


def register(ck, ks):
    a = ck.args(ks["register"])
    p, t, c = a
    mine = ck.ip.models.objname(c)
    st = State()
    for s, before in creation(ck, "create_tag", ks["create_tag"], p, t, st):
        for q in no_panic(ck, "register", "register", ck.run("register", ks["register"], a, s) or []):
            previous(ck, "register", q.st, q.val, before)
            for z, r in creation(ck, "create_tag after register", ks["create_tag"], p, t, q.st):
                same(ck, "registered", "register", z, r, ("made", mine), "the creator registered last for an id makes its tags")
            # again
            b = ck.args(ks["register"], a0=p, a1=t)
            for w in no_panic(ck, "register", "register twice", ck.run("register twice", ks["register"], b, q.st) or []):
                previous(ck, "register twice", w.st, w.val, ("made", mine))
                for z, r in creation(ck, "create_tag after register", ks["create_tag"], p, t, w.st):
                    same(ck, "registered", "register twice", z, r, ("made", ck.ip.models.objname(b[2])), "the creator registered last for an id makes its tags")
            # removal
            d = ck.args(ks["deregister"], a0=p, a1=t)
            for w in no_panic(ck, "register", "deregister after register", ck.run("deregister after register", ks["deregister"], d, q.st) or []):
                previous(ck, "deregister after register", w.st, w.val, ("made", mine))
    others(ck, "register", ks, a, p, t)


def others(ck, what, ks, a, p, t):
    """no other id is affected"""
    u = fresh("other", 0, U64)
    st = State()
    st.assume(ne(t, u))
    for s, before in creation(ck, "create_tag", ks["create_tag"], p, u, st):
        for q in ck.run(what, ks[what], a, s) or []:
            if q.kind != "panic":
                for z, r in creation(ck, "create_tag after " + what, ks["create_tag"], p, u, q.st):
                    same(ck, "others", what, z, r, before, "%s does not affect any other id" % what)


def strictof(ck, ks, p, st):
    return [(o.st, o.val) for o in ck.run("strict", ks["strict"], [p], st) or [] if o.kind != "panic"]


def deregister(ck, ks):
    a = ck.args(ks["deregister"])
    p, t = a
    for s, before in creation(ck, "create_tag", ks["create_tag"], p, t, State()):
        for q in no_panic(ck, "deregister", "deregister", ck.run("deregister", ks["deregister"], a, s) or []):
            previous(ck, "deregister", q.st, q.val, before)
            for z, x in strictof(ck, ks, p, q.st):
                for y, r in creation(ck, "create_tag after deregister", ks["create_tag"], p, t, z):
                    policy(ck, "deregister", y, r, t, boolterm(y, x) if not isinstance(x, L) else x)
            for w in no_panic(ck, "deregister", "deregister twice", ck.run("deregister twice", ks["deregister"], a, q.st) or []):
                previous(ck, "deregister twice", w.st, w.val, ("none",))
    others(ck, "deregister", ks, a, p, t)


def pure(ck, ks):
    """create_tag twice yields the same; strict() survives every operation"""
    for op in ("register", "deregister"):
        a = ck.args(ks[op])
        for s, x in strictof(ck, ks, a[0], State()):
            for q in ck.run(op, ks[op], a, s) or []:
                if q.kind != "panic":
                    for z, y in strictof(ck, ks, a[0], q.st):
                        same_bool(ck, "strict", op, z, y, as_bool(z, x), "%s does not change strictness" % op)


def factory(ck, ks):
    """the standard factory follows its engine"""
    new, eng = ck.anchor(FAC + "::new"), ck.anchor(FAC + "::engine")
    ct = ck.manchor("tags::ILTagFactory", FAC, "create_tag")
    if None in (new, eng, ct):
        return
    a = ck.args(new)
    for o in no_panic(ck, "factory", "ILStandardTagFactory::new", ck.run("ILStandardTagFactory::new", new, a) or []):
        s = o.st.copy()
        p = Ptr(ck.ip.newcell(s, o.val, CR + FAC, "obj"))
        t = fresh("id", 32, U64)
        for z, r in creation(ck, "ILStandardTagFactory", ct, p, t, s):
            policy(ck, "ILStandardTagFactory", z, r, t, boolterm(z, a[0]))
    # whatever is registered in its engine
    b = ck.args(eng)
    p = b[0]
    for o in no_panic(ck, "factory", "engine", ck.run("engine", eng, b) or []):
        c = ck.args(ks["register"], a0=o.val)
        mine = ck.ip.models.objname(c[2])
        for q in no_panic(ck, "factory", "register", ck.run("register in engine()", ks["register"], c, o.st) or []):
            for z, r in creation(ck, "ILStandardTagFactory after register", ct, p, c[1], q.st):
                same(ck, "registered", "ILStandardTagFactory", z, r, ("made", mine), "the factory uses what is registered in its engine")
        d = ck.args(ks["deregister"], a0=o.val)
        for q in no_panic(ck, "factory", "deregister", ck.run("deregister in engine()", ks["deregister"], d, o.st) or []):
            for z, x in strictof(ck, ks, o.val, q.st):
                for y, r in creation(ck, "ILStandardTagFactory after deregister", ct, p, d[1], z):
                    policy(ck, "ILStandardTagFactory after deregister", y, r, d[1], boolterm(y, x) if not isinstance(x, L) else x)
