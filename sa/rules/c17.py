"""C17: tags are viewed as a concrete type only if they are of that type and have the id asked for."""
from .tags import *


def main():
    ck = Check("C17", "type and id checks on tags")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "The tag_downcast_*, tag_id_downcast_* and assert_tag_id_and_type* helpers are abstractly interpreted on a tag of unknown concrete "
        "type and id and any expected type and id. They must succeed exactly if the type is the expected one and (where an id is given) "
        "the ids are equal, hand back the very object they were given, and fail with UnexpectedTagType or the given error. For every tag "
        "type, as_any and as_mut_any must expose the tag itself under its own type, which is what those helpers rely on.", floor=60)


# function -> (takes an id, 'ref' result / 'unit')
FNS = {"tag_downcast_ref": False, "tag_downcast_mut": False, "tag_downcast_ref_with_id": True, "tag_downcast_mut_with_id": True,
       "tag_id_downcast_ref": True, "tag_id_downcast_mut": True, "assert_tag_id_and_type_or_error": True, "assert_tag_id_and_type": True}


def check(ck):
    for n, with_id in sorted(FNS.items()):
        k = ck.anchor("tags::" + n) if ck.find("tags::" + n) is None else ck.find("tags::" + n)
        if k:
            ck.step(n, helper, ck, n, k, with_id)
    for name, ty, ms in tagtypes(ck):
        for m in ("as_any", "as_mut_any"):
            k = method(ck, name, ms, m)
            if k:
                ck.step("%s::%s" % (name, m), self_view, ck, "%s::%s" % (name, m), k, ty)


def helper(ck, n, k, with_id):
    a = ck.args(k)
    fn = ck.ip.fn(k)
    tag = [x for x in a if isinstance(x, Ptr)][0]
    st = State()
    m = ck.ip.models
    t = fn.locals[0][0]
    t = t[t.index("&") + 1:t.rindex(">")] if "&" in t else "T"
    t = t.split(",")[0].replace("mut ", "").strip() if "&" in fn.locals[0][0] else "T"
    isty = m.sametype(m.tyname(st, tag), ("conc", t))
    cond = isty
    if with_id:
        cond = conj([isty, eq(a[0], A(atom("fn", ("tag", "id", m.objname(tag)), 0, U64)))])
    good = bad = 0
    u0 = ck.nund
    for o in no_panic(ck, "panic", n, ck.run(n, k, a, st) or []):
        v = o.val
        if not isinstance(v, Enum):
            raise GiveUp("result of %s" % n)
        res = v.ty.startswith("std::result::Result")
        ok = (v.var == 0) if res else (v.var == 1)
        if ok:
            good += 1
            ck.ob("accept", n, o.st, cond, "%s accepts only a tag of the expected type%s" % (n, " and id" if with_id else ""))
            if v.fields and isinstance(v.fields[0], Ptr):
                ck.path_ob("view", n, o.st, v.fields[0].cell in (tag.cell, ("x", ("as", t, tag.cell[1]))) and not v.fields[0].path,
                           "%s hands back the tag it was given" % n)
            continue
        bad += 1
        ck.ob("refuse", n, o.st, negc(cond), "%s refuses only a tag of another type%s" % (n, " or id" if with_id else ""))
        if res and "error" in n:
            ck.path_ob("error", n, o.st, v.fields[0] == a[2], "%s fails with the error it was given" % n)
        elif res:
            e = err_name(ck.ip, v)
            ck.path_ob("error", n, o.st, e == "UnexpectedTagType", "%s fails with UnexpectedTagType, not %s" % (n, e))
    ck.some(n + "/accept", good, u0, "%s can accept" % n)
    ck.some(n + "/refuse", bad, u0, "%s can refuse" % n)


def self_view(ck, what, k, ty):
    a = ck.args(k)
    for o in no_panic(ck, "panic", what, ck.run(what, k, a) or []):
        v = o.val
        if not isinstance(v, Ptr):
            raise GiveUp("result of " + what)
        ck.path_ob("self", what, o.st, v.cell == a[0].cell and v.path == a[0].path and v.vt == ty, "%s exposes the tag itself, under its own type" % what)
