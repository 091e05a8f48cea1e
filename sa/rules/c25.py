"""C25: byte forms, equality and clones agree with serialisation."""
from .tags import *
from .c05 import signs
from .c14 import inherent
import cuts

FACT = "tags::ILTagFactory"
STD = "tags::standard::factory::ILStandardTagFactory"


def main():
    ck = Check("C25", "byte forms, equality and clones")
    ck.use_cuts()
    cuts.install_factories(ck)
    ck.go(check)
    return ck.finish(
        "to_bytes of every tag type is abstractly interpreted after serialize on the same contents: the same bytes. The provided from_bytes is "
        "interpreted on an abstract factory and any bytes: it returns the tag deserialize made, exactly if that one ends with the bytes. "
        "iltag_are_equal and the clone helpers are interpreted on abstract tags and factories that may fail at any call; what they return is "
        "compared with the bytes the tags serialise to.", floor=60)


def journal(ck):
    """writes to a VecWriter that was empty are noted in order instead of being merged into its vector: what C19 proves of it"""
    ip = ck.ip
    for i in ck.impls("io::Writer"):
        if i["self"] != CR + "io::array::VecWriter":
            continue
        for m in ("write", "write_all"):
            c = i["methods"].get(m)
            if c and c.get("rpath"):
                ip.cuts[c["rpath"]] = lambda ip, st, c, a, dty, loc, m=m: note(ip, st, m, a, dty, loc)


def note(ip, st, m, a, dty, loc):
    p = a[0]
    x = ip.load(st, p.cell, p.path)
    if not isinstance(x, Struct):
        return None
    vs = [i for i, f in enumerate(x.fields) if isinstance(f, Seq)]
    ns = [i for i, f in enumerate(x.fields) if isinstance(f, L)]
    bs = [i for i, f in enumerate(x.fields) if isinstance(f, (bool, Cond))]
    if len(vs) != 1 or len(ns) != 1 or len(vs) + len(ns) + len(bs) != len(x.fields) or [1 for i in bs if st.decide(as_bool(st, x.fields[i])) is not False]:
        return None
    v, o = x.fields[vs[0]], x.fields[ns[0]]
    s = st.copy()
    seg = v.segs[0] if len(v.segs) == 1 else None
    if seg is not None and seg[1] == "o" and isinstance(seg[2], tuple) and seg[2][0] == "journal" and seg[3] == ZERO and o == seg[0]:
        nm = seg[2]
    elif s.prove(-v.len) and s.prove(-o):
        n = fresh("written", 0, 1 << 40)
        nm = ("journal", uid(), n)
        fs = list(x.fields)
        fs[vs[0]] = Seq(v.ety, [(n, "o", nm, ZERO)])
        fs[ns[0]] = n
        ip.store(s, p.cell, p.path, Struct(x.ty, fs, x.fn))
    else:
        return None
    w = Seq("u8", [(ONE, "e", a[1])]) if m == "write" else ip.ptrseq(s, ip.models.view(s, a[1]))
    ip.models.log(s, Ev("wr", nm, True, ip.where(loc), seq=w, via=m))
    return ip.models.ok(s, dty)


def settled(ck, st, v):
    """the bytes of a vector that came out of a VecWriter"""
    if not isinstance(v, Seq):
        raise GiveUp("bytes %s" % str(v)[:80])
    segs = ()
    for g in v.segs:
        if g[1] == "o" and isinstance(g[2], tuple) and g[2][0] == "journal":
            w = loops.normv(st, written(st, g[2]))
            st.assume(eq(g[2][2], w.len))
            segs += w.segs if st.same(g[0], g[2][2]) else ck.ip.seqslice(st, w, g[3], g[0]).segs
        else:
            segs += (g,)
    return loops.normv(st, Seq(v.ety, segs))


def check(ck):
    journal(ck)
    for name, ty, ms in tagtypes(ck):
        ks = [method(ck, name, ms, m) for m in ("serialize", "to_bytes")]
        if None not in ks:
            ck.step(name, tobytes, ck, name, *ks)
    fk = {i["self"].split("::")[-1]: i["methods"].get("from_bytes", {}).get("key") for i in ck.impls(FACT)}
    for name, k in sorted(fk.items()):
        if name != "UntouchbleTagFactory" and k in ck.ip.raw:
            ck.step(name + "::from_bytes", frombytes, ck, name + "::from_bytes", k)
    k = ck.anchor("tags::util::iltag_are_equal")
    if k:
        ck.step("iltag_are_equal", equal, ck, k)
    k = ck.anchor("tags::util::iltag_clone_with_factory")
    if k:
        ck.step("iltag_clone_with_factory", clone, ck, "iltag_clone_with_factory", k, None)
    k, n = ck.anchor("tags::util::iltag_clone"), ck.anchor(STD + "::new")
    if k and n:
        ck.step("iltag_clone", clone, ck, "iltag_clone", k, n)
    k = ck.anchor("tags::util::limited_reader_ensure_empty")
    if k:
        ck.step("limited_reader_ensure_empty", empty, ck, k)


def tobytes(ck, name, ks, kb):
    a = ck.args(ks)
    n, u0 = 0, ck.nund
    for o in ck.run(name + "::serialize", ks, a) or []:
        if o.kind == "panic" or is_ok(o.val) is not True:
            continue
        w = loops.normv(o.st, written(o.st, (a[1].cell, a[1].path)))
        s = o.st.copy()
        s.log = ()
        for q in ck.run(name + "::to_bytes", kb, a[:1], s) or []:
            if q.kind == "panic":
                continue        # C08 / C19
            if failed(q.st, "subser"):
                ck.path_ob("fails", name, ck.relaxed(q.st), is_ok(q.val) is False, "%s::to_bytes fails when serialising fails" % name)
                continue
            if not ck.path_ob("ok", name, q.st, is_ok(q.val), "%s::to_bytes succeeds where serialize does" % name):
                continue
            n += 1
            g = settled(ck, q.st, q.val.fields[0])
            w2 = loops.normv(q.st, w)
            if loops.sameseq(q.st, g, w2):
                ck._count("bytes", True)
            else:
                same_seq(ck, "bytes", name, q.st, g, w2, "what %s::to_bytes returns" % name)
    ck.some(name, n, u0, "%s::to_bytes can succeed" % name)


def subtags(st):
    return [e for e in events(st, "subtag")]


def frombytes(ck, what, k):
    a = ck.args(k)
    n = bad = 0
    u0 = ck.nund
    for o in no_panic(ck, "panic", what, ck.run(what, k, a) or []):
        ev = subtags(o.st)
        good = [e for e in ev if e.ok]
        total = ck.ip.models.seqof(o.st, a[1]).len
        if is_ok(o.val):
            n += 1
            if not ck.path_ob("from", what + "/read", o.st, len(ev) == 1 and good, "%s succeeds only after its factory deserialized one tag" % what):
                continue
            e = good[0]
            ck.path_ob("from", what + "/factory", o.st, e.obj == ck.ip.models.objname(a[0]), "%s asks the factory it was called on" % what)
            v = o.val.fields[0]
            ck.path_ob("from", what + "/tag", o.st, isinstance(v, Ptr) and v.cell == ("x", e.name), "%s returns the tag that was deserialized" % what)
            ck.path_ob("from", what + "/start", o.st, e.name[0] == "tagat" and e.name[2] == ZERO, "%s reads the tag from the start of the bytes" % what)
            ck.ob("from", what + "/whole", o.st, eq(e.n, total), "%s accepts only bytes that end where the tag ends" % what)
            continue
        bad += 1
        er = err_name(ck.ip, o.val)
        if [e for e in ev if not e.ok]:
            x = o.val.fields[0]
            ck.path_ob("from", what + "/error", o.st, isinstance(x, Opq) and x.name[0] in ("subtag", "err") or isinstance(x, Opq),
                       "%s reports the error of deserialize" % what)
            continue
        if not good:
            ck.path_ob("from", what + "/untried", o.st, False, "%s fails although nothing it did failed" % what)
            continue
        ck.ob("from", what + "/leftover", o.st, ge(total, good[0].n + 1), "%s refuses a deserialized tag only if bytes are left over" % what)
        ck.path_ob("from", what + "/kind", o.st, er == "CorruptedData", "%s reports left-over bytes as CorruptedData, not %s" % (what, er))
    ck.some(what + "/ok", n, u0, "%s can succeed" % what)
    ck.some(what + "/err", bad, u0, "%s can fail" % what)


def ser(ck, st, p):
    m = ck.ip.models
    return Seq("u8", [m.serseg(st, p, m.tagsize(st, p), "tag")])


def tag(what, p, ck):
    return A(atom("fn", ("tag", what, ck.ip.models.objname(p)), 0, U64))


def equal(ck, k):
    a = ck.args(k)
    m = ck.ip.models
    seen = set()
    u0 = ck.nund
    l0 = ck.ip.stats["loops"]
    s0 = State()
    if ck.ip.refute:
        # (looking for violations: tags of a few bytes)
        for x in a:
            s0.assume(eq(m.tagsize(s0, x), C(ck.ip.refute)))
    for o in no_panic(ck, "panic", "iltag_are_equal", ck.run("iltag_are_equal", k, a, s0) or []):
        st = o.st
        if [e for e in events(st) if e.ok is False]:
            seen.add("failed")
            ck.ob("equal", "failed", st, negc(as_bool(st, o.val)), "iltag_are_equal is false if a tag cannot be serialised")
            continue
        seen.add("ok")
        ck.cases(st, lambda s: compare(ck, s, a, o.val, ck.ip.stats["loops"] > l0))
    for x in ("failed", "ok"):
        ck.some("equal/" + x, x in seen, u0, "iltag_are_equal has a %s outcome" % x)


def compare(ck, st, a, v, loop):
    m = ck.ip.models
    want = m.seqeq(st, ser(ck, st, a[0]), ser(ck, st, a[1]))
    if loop:
        if elementwise(ck, st, ser(ck, st, a[0]), ser(ck, st, a[1]), v):
            return
        st = st.copy()
        st.notes += (("loop", "a comparison in a loop"),)
    yes = st.copy()
    # the bytes start with the id and determine every size
    if yes.assume(want) and yes.assume(eq(tag("id", a[0], ck), tag("id", a[1], ck))) and \
            yes.assume(eq(m.tagatom(yes, a[0], "vsize", 0, 1 << 62), m.tagatom(yes, a[1], "vsize", 0, 1 << 62))):
        ck.ob("equal", "same", yes, as_bool(yes, v), "iltag_are_equal holds for tags that serialise to the same bytes")
    no = st.copy()
    if no.assume(negc(want)):
        ck.ob("equal", "different", no, negc(as_bool(no, v)), "iltag_are_equal holds only for tags that serialise to the same bytes")


def elementwise(ck, st, A_, B_, v):
    """the outcome of a comparison written as a loop over the bytes; False if that is not what it is"""
    ip = ck.ip
    el = lambda s, i: (ip.segelem(s, "u8", A_.segs[0], i), ip.segelem(s, "u8", B_.segs[0], i))
    la, lb = st.norm(A_.len), st.norm(B_.len)
    v = as_bool(st, v)
    v = v if isinstance(v, bool) else st.decide(v)
    if v is None:
        return False
    if v is False:
        if st.decide(eq(la, lb)) is False:
            return True
        for i in indices(st, el):
            x, y = el(st, i)
            if st.decide(ne(x, y)) is True:
                ck._count("equal", True)
                return True
        return False
    if ip.refute:
        if la.const is None:
            return False
        ck.ob("equal", "different/length", st, eq(la, lb), "iltag_are_equal holds only for tags that serialise to the same bytes")
        if st.decide(eq(la, lb)) is True:
            for i in range(la.const):
                ck.ob("equal", "different/element", st, eq(*el(st, C(i))), "iltag_are_equal holds only for tags that serialise to the same bytes")
        return True
    loops_ = [e for e in st.log if e.kind == "star"]
    cover = []
    for e in loops_:
        it = ip.starcount.get(e.bv)
        backs = ip.stars.get(e.bv, ())
        if it is None or not backs:
            return False
        for way in (1, -1):
            cs = [{z for i in indices(b, el) for z in [b.norm(i - A(it) * way)] if it not in {q for q, _ in z.t} and b.decide(eq(*el(b, i))) is True}
                  for b in backs]
            cs = set.intersection(*cs)
            if len(cs) == 1:
                cnt = st.norm(e.count)
                off = st.norm(cs.pop())
                cover.append((off if way == 1 else off - cnt + 1, cnt))
    if len(cover) != 1:
        return False
    off, cnt = cover[0]
    done = [i for i in indices(st, el) if st.decide(eq(*el(st, i))) is True]
    lo, hi = off, off + cnt
    for _ in done:
        for i in done:
            if st.same(st.norm(i + 1), lo):
                lo = st.norm(i)
            if st.same(st.norm(i), hi):
                hi = st.norm(i + 1)
    msg = "iltag_are_equal holds only for tags that serialise to the same bytes"
    ck.ob("equal", "different/length", st, eq(la, lb), msg)
    ck.ob("equal", "different/start", st, ge(ZERO, lo), msg)
    ck.ob("equal", "different/end", st, ge(hi, la), msg)
    return True


def indices(st, el):
    """the indices of both sequences that a state knows something about"""
    x, y = el(st, ZERO)
    names = {z.t[0][0].args[0] for z in (x, y)}
    seen = {}
    fs = list(st.facts) + list(st.nes) + [A(k) - w for k, w in st.sub.items() if isinstance(w, L)]
    for f in fs:
        for q, _ in f.t:
            if q.kind == "el" and q.args[0] in names:
                seen.setdefault(q.args[1], set()).add(q.args[0])
    return [i for i, n in seen.items()]


def clone(ck, what, k, new):
    """the clone is what the factory reads from exactly the bytes of the tag"""
    ip = ck.ip
    snaps = {}
    if new:
        for i in ck.impls(FACT):
            if i["self"] == CR + STD and i["methods"].get("from_bytes"):
                c = i["methods"]["from_bytes"]

                def hook(ip, st, c, a, dty, loc):
                    snaps[ip.models.objname(a[0])] = ip.load(st, a[0].cell, a[0].path)
                    return ip.models.t_ILTagFactory_from_bytes(st, c, a, dty, loc)
                for p in {c.get("rpath"), c["path"]}:
                    ip.cuts[p] = hook
        ip.cuts[CR + STD + "::new"] = lambda ip, st, c, a, dty, loc: ip.models.ret(st, Struct(dty, [Opq("engine", ("new factory", a[0]))]))
    a = ck.args(k)
    p = a[-1]
    n = bad = 0
    u0 = ck.nund
    for o in no_panic(ck, "panic", what, ck.run(what, k, a) or []):
        st = o.st
        fb = events(st, "from_bytes")
        if is_ok(o.val) is not True:
            bad += 1
            ck.path_ob("clone", what + "/refused", st, [e for e in events(st) if e.ok is False], "%s fails only if the tag cannot be serialised or read back" % what)
            continue
        n += 1
        if not ck.path_ob("clone", what + "/made", st, len(fb) == 1 and fb[0].ok, "%s returns what a factory made from bytes" % what):
            continue
        e = fb[0]
        v = o.val.fields[0]
        ck.path_ob("clone", what + "/returned", st, isinstance(v, Ptr) and v.cell == ("x", ("from_bytes", e.seq)), "%s returns the tag the factory made" % what)
        want = ser(ck, st, p)
        if loops.sameseq(st, settled(ck, st, e.seq), loops.normv(st, want)):
            ck._count("clone", True)
        else:
            same_seq(ck, "clone", what + "/bytes", st, settled(ck, st, e.seq), want, "what %s hands to the factory" % what)
        if not new:
            ck.path_ob("clone", what + "/factory", st, e.obj == ip.models.objname(a[0]), "%s uses the factory it was given" % what)
            continue
        f = snaps.get(e.obj)
        if not ck.path_ob("clone", what + "/type", st, getattr(f, "ty", None) == CR + STD, "%s uses an ILStandardTagFactory" % what):
            continue
        mark = isinstance(f, Struct) and len(f.fields) == 1 and isinstance(f.fields[0], Opq) and f.fields[0].name[0] == "new factory"
        if not mark:
            ck.undecided("clone:%s/factory" % what, "%s makes its factory in another way than ILStandardTagFactory::new" % what)
            continue
        ck.ob("clone", what + "/strict", st, negc(as_bool(st, f.fields[0].name[1])), "%s uses a factory that is not strict" % what)
    ck.some(what + "/ok", n, u0, "%s can succeed" % what)
    ck.some(what + "/err", bad, u0, "%s can fail" % what)


def empty(ck, k):
    a = ck.args(k)
    m = ck.ip.models
    kinds = set()
    u0 = ck.nund
    ke = inherent(ck, "empty")
    if not ke:
        return
    for o in no_panic(ck, "panic", "limited_reader_ensure_empty", ck.run("limited_reader_ensure_empty", k, a) or []):
        kinds.add(bool(is_ok(o.val)))
        for q in ck.run("empty", ke, [a[0]], o.st) or []:
            if q.kind == "panic":
                continue
            v = as_bool(q.st, q.val)
            if is_ok(o.val):
                ck.ob("empty", "ok", q.st, v, "limited_reader_ensure_empty succeeds only on an exhausted reader")
            else:
                ck.ob("empty", "err", q.st, negc(v), "limited_reader_ensure_empty refuses only a reader that is not exhausted")
                ck.path_ob("empty", "error", q.st, o.val.fields[0] == a[1], "limited_reader_ensure_empty fails with the error it was given")
    for x in (True, False):
        ck.some("empty/%s" % x, x in kinds, u0, "limited_reader_ensure_empty can %s" % ("succeed" if x else "fail"))
