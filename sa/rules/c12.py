"""C12: dictionaries serialise canonically: every entry once, in ascending key order."""
from .tags import *
import cuts
import fw

TY = ("tags::standard::explicit::ILDictTag", "tags::standard::explicit::ILStrDictTag")


def main():
    ck = Check("C12", "canonical dictionary serialisation")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "serialize_value of the two dictionary tags is abstractly interpreted on a map with any entries, enumerated by the map in an unknown "
        "order; loops over it and the sort are summarised, keeping by what the entries were ordered. On every successful path the bytes "
        "written must be the number of entries as an ILInt followed by, for each entry of the map in ascending order of the key's bytes, the "
        "string tag of the key and the serialisation of the value belonging to that key.", floor=10)


def check(ck):
    types = {ty: (name, ms) for name, ty, ms in tagtypes(ck)}
    for t in TY:
        if CR + t not in types:
            ck.violation("anchor:" + t, "the tag type %s is gone" % t)
            continue
        name, ms = types[CR + t]
        k = method(ck, name, ms, "serialize_value")
        if k:
            ck.step(name, one, ck, name, CR + t, k)


def mapcell(ck, ty):
    """index of the field holding the entries"""
    for a in ck.dump["adts"]:
        if a["path"] == ty:
            return [f["name"] for f in a["fields"]]
    return []


def perms(x, out):
    """permutation terms used in a value"""
    if isinstance(x, tuple):
        for y in x:
            perms(y, out)
    elif isinstance(x, (L, Seq, Struct, Enum, Ptr, V)) or hasattr(x, "deep_atoms"):
        for a in x.deep_atoms():
            if a.kind == "fn" and a.args[0] == "perm" and a not in out:
                out.append(a)
    return out


def one(ck, name, ty, k):
    n, u0 = 0, ck.nund
    a = ck.args(k)
    for o in ck.run(name, k, a) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        n += 1
        if skips(ck, name, o.st, (a[1].cell, a[1].path)):
            continue
        w = loops.normv(o.st, written(o.st, (a[1].cell, a[1].path)))
        segs = [g for g in w.segs if o.st.norm(g[0]) != ZERO]
        star = [g for g in segs if g[1] == "star"]
        if ck.ip.refute:
            counted(ck, name, o.st, segs)
            continue
        if len(segs) == 1 and segs[0][1] == "e" and segs[0][2] == ZERO:
            continue        # no entry
        if segs and segs[0][1] == "e" and segs[0][2] == ONE and not star:
            single(ck, name, o.st, segs)
            continue
        if len(segs) != 2 or len(star) != 1 or segs[1] is not star[0] or segs[0][1] not in ("ilint", "e"):
            raise GiveUp("the bytes written are not a count and one repetition: %s" % str(w)[:200])
        entries(ck, name, o.st, segs[0], star[0])
    ck.some(name, n, u0, "%s can be serialised" % name)


def skips(ck, name, st, w):
    """a loop writes entries, but there is an iteration that writes nothing"""
    for e in st.log:
        if e.kind != "star" or len(e.bodies) < 2 or ck.ip.refute:
            continue
        ws = [fw._written(b, w) for b in e.bodies]
        if any(ws) and not all(ws):
            for b, x in zip(ck.ip.stars.get(e.bv, ()), ws):
                if not x and ck.path_ob("entry", name + "/every", b, False, "%s writes each entry: none is skipped" % name) is not True:
                    return True
    return False


def keybase(body):
    for g in body:
        if g[1] == "o" and isinstance(g[2], tuple) and g[2][0] == "s" and isinstance(g[2][1], tuple) and g[2][1][0] == "key":
            return g[2][1][1], g[2][1][2]
    return None, None


def single(ck, name, st, segs):
    base, idx = keybase(segs)
    if base is None:
        raise GiveUp("the bytes written are not a count and one entry: %s" % str(segs)[:200])
    size = A(atom("fn", ("maplen", base), 0, ISIZE // 32))
    ck.ob("count", name + "/single", st, eq(size, ONE), "%s writes every entry once" % name)
    ck.ob("count", name + "/single index", st, eq(idx, ZERO), "%s writes every entry once" % name)
    match(ck, name, st, segs[1:], spec(ck, st, base, idx, ty_of(segs)))


def counted(ck, name, st, segs):
    """with the loops unrolled: as many entries written as the map has"""
    base, _ = keybase(segs)
    m = len([g for g in segs if g[1] == "e" and g[0] == ONE and g[2] == C(17)])
    if any(g[1] in ("star", "?") for g in segs) or not segs:
        return
    if base is None:
        bases = {a.args[1] for q in st.facts for a, _ in q.t if a.kind == "fn" and a.args[0] == "maplen" and not isinstance(a.args[1], MapV)}
        if m or len(bases) != 1:
            return
        base = bases.pop()
    if ty_of(segs) == "str" and base is not None and any("mapval" in str(g[2]) for g in segs if g[1] == "o"):
        m = m // 2
    size = A(atom("fn", ("maplen", base), 0, ISIZE // 32))
    ck.ob("count", name + "/unrolled", st, eq(size, C(m)), "%s writes every entry once" % name)


def match(ck, name, st, got, want):
    got = tuple(loops.normv(st, Seq("u8", got)).segs)
    if got == tuple(want.segs) or loops.sameseq(st, Seq("u8", got), want):
        ck._count("entry", True)
    else:
        same_entry(ck, name, st, got, want)


def entries(ck, name, st, head, star):
    ip = ck.ip
    cnt, bv, body = star[2], star[3], star[4]
    base, idx = keybase(body)
    if base is None:
        return ck.path_ob("entry", name, st, False, "%s writes the key of each entry" % name)
    size = A(atom("fn", ("maplen", base), 0, ISIZE // 32))
    ck.ob("count", name, st, eq(head[2], size), "%s starts with the number of entries" % name)
    ck.ob("count", name + "/entries", st, eq(cnt, size), "%s writes every entry once" % name)
    s2 = st.copy()
    if s2.assume(ge(size, C(2))) is False:
        return                 # at most one entry: any order
    # the index of the entry written: a permutation of 0..size that orders the keys
    if idx == A(bv):
        return ck.path_ob("order", name, st, False, "%s writes the entries in key order, not in the order the map happens to have" % name)
    p = idx.single() if isinstance(idx, L) else None
    back = p is not None and p.kind == "fn" and p.args[0] == "perm" and st.same(p.args[3], cnt - 1 - A(bv))
    if p is None or p.kind != "fn" or p.args[0] != "perm" or p.args[3] != A(bv) and not back:
        raise GiveUp("order of the entries: %s" % str(idx)[:120])
    ordered(ck, name, s2, base, p, back)
    ck.ob("count", name + "/range", st, eq(p.args[2], size), "%s orders all entries" % name)
    want = spec(ck, st, base, idx, ty_of(body))
    match(ck, name, st, body, want)


ISIZE = (1 << 63) - 1


def ty_of(body):
    return "ser" if any(g[1] == "ser" for g in body) else "str"


def strtag(st, name):
    n = A(atom("fn", ("len",) + (name,), 0, ISIZE))
    return [(ONE, "e", C(17)), (st.norm(es_(n)), "ilint", n), (n, "o", ("s", name), ZERO)]


def es_(n):
    from models import es
    return es(n)


def spec(ck, st, base, idx, kind):
    key, val = ("key", base, idx), ("mapval", base, idx)
    segs = strtag(st, key)
    if kind == "str":
        segs += strtag(st, val)
    else:
        sz = A(atom("fn", ("tag", "size", val, 0), 0, U64))
        segs.append((sz, "ser", val, "tag"))
    return Seq("u8", segs)


def same_entry(ck, name, st, got, want):
    """compare part by part"""
    ok = len(got) == len(want.segs)
    ck.path_ob("entry", name + "/parts", st, ok, "%s writes each entry as the key's string tag and its value (%d parts instead of %d)" % (
        name, len(got), len(want.segs)))
    if not ok:
        return
    for g, w in zip(got, want.segs):
        if g[1] == w[1] and g[2:] == w[2:]:
            ck._count("entry", True)
        elif g[1] == w[1] == "ilint" or g[1] == w[1] == "e":
            ck.ob("entry", name, st, eq(g[2], w[2]), "%s writes each entry as the key's string tag and its value" % name)
        elif g[1] == w[1] == "ser" or g[1] == w[1] == "o":
            ck.path_ob("entry", name, st, False, "%s writes the key and its own value for each entry (%s instead of %s)" % (name, str(g[2])[:60], str(w[2])[:60]))
        else:
            ck.undecided("entry:" + name, "cannot compare %s with %s" % (str(g)[:80], str(w)[:80]))


def ordered(ck, name, st, base, p, back):
    nm = p.args[1]
    if not (isinstance(nm, tuple) and nm[0] == "sorted"):
        raise GiveUp("order of the entries: %s" % str(nm)[:120])
    by, elem = nm[1], nm[2]
    desc = "%s writes the entries in ascending key order, not descending" % name
    if by[0] == "map":
        return ck.path_ob("order", name, st, not back, desc)
    if by[0] == "opq":
        raise GiveUp("entries ordered by a comparison the analysis cannot read")
    if by[0] == "len":
        return ck.path_ob("order", name, st, False, "%s orders the entries by their keys' bytes, not by %s" % (name, str(by[1])[:80]))
    x = by[1] if by[0] in ("by", "rev") else elem
    if isinstance(x, Struct) and x.fields:
        x = x.fields[0]
    if by[0] in ("ord", "by", "rev") and iskey(ck, st, base, x):
        return ck.path_ob("order", name, st, (by[0] == "rev") == back, desc)
    if isinstance(x, L):
        return ck.path_ob("order", name, st, False, "%s orders the entries by their keys' bytes, not by %s" % (name, str(x)[:80]))
    for f in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
        if f in str(x):
            return ck.fact("order", name, False, "%s orders the entries by their keys' bytes, not by %s of the keys" % (name, f))
    raise GiveUp("entries ordered by %s" % str(x)[:120])


def iskey(ck, st, base, x):
    """x is key 0 of the map"""
    while isinstance(x, Ptr):
        if x.cell == ("x", ("key", base, ZERO)) and not x.path:
            return x.rng is None or st.norm(x.rng[0]) == ZERO and "len" in str(x.rng[1])
        v = ck.ip.load(st, x.cell, x.path)
        if v == x:
            return False
        x = v
    if isinstance(x, Opq):
        return x.name == ("key", base, ZERO)
    return isinstance(x, Seq) and len(x.segs) == 1 and x.segs[0][1] == "o" and x.segs[0][2] == ("s", ("key", base, ZERO)) and x.segs[0][3] == ZERO
