"""Contracts of the ILInt codec, used by every analysis except the one that
proves them (C01)."""
from terms import *
from values import *
from models import es, tainted

P = "il2_iltags::ilint::"


def install(ip):
    ip.cuts[P + "encoded_size"] = encoded_size
    ip.cuts[P + "encode"] = encode
    ip.cuts[P + "decode"] = decode
    ip.cuts[P + "decoded_size"] = decoded_size
    ip.cuts[P + "decode_body"] = decode_body


def errty(ip, dty):
    return ip.models.enumty(dty, 1)


def variant(ip, ty, name):
    for i, v in enumerate(ip.t(ty)["variants"]):
        if v["name"] == name:
            return i
    raise GiveUp("no variant %s" % name)


def mkerr(ip, dty, name, args=()):
    et = errty(ip, dty)
    return Enum(dty, 1, [Enum(et, variant(ip, et, name), list(args))])


def encoded_size(ip, st, c, a, dty, loc):
    v = st.norm(a[0])
    if st.prove(C(0xF7) - v):
        return ip.models.ret(st, ONE)
    return ip.models.ret(st, st.norm(es(v)))


def decoded_size(ip, st, c, a, dty, loc):
    """length announced by a header byte"""
    h = st.norm(a[0])
    i = hdr(h)
    if i is None:
        return None
    kind, x = i
    if kind == "V":
        return ip.models.ret(st, st.norm(es(x)))
    n = clen(st, *x)
    d = st.decide(ge(C(0xF7), h))
    if d is None and n.const is None:
        raise Split([ge(C(0xF7), h), ge(h, C(0xF8))])
    st = st.copy()
    if d:
        if not (st.assume(eq(n, ONE)) and st.assume(eq(decv(st, *x), h))):
            return []
        return ip.models.ret(st, ONE)
    if not st.assume(ge(n, C(2))):
        return []
    return ip.models.ret(st, st.norm(n))


def decode_body(ip, st, c, a, dty, loc):
    """the body of an ILInt whose header announced exactly these bytes"""
    m = ip.models
    w = m.seqof(st, a[0])
    segs = [g for g in w.segs if st.norm(g[0]) != ZERO]
    if len(segs) != 1 or segs[0][1] != "o" or not (isinstance(segs[0][2], tuple) and segs[0][2][0] == "stream"):
        return None
    n, name, i = st.norm(w.len), segs[0][2], st.norm(segs[0][3] - 1)
    if st.decide(eq(n, clen(st, name, i) - 1)) is not True or not st.prove(n - 1):
        return None
    v = decv(st, name, i)
    st = st.copy()
    st.assume(ge(n + 1, st.norm(es(v))))
    out = m.ok(st.copy(), dty, v)
    if st.decide(ge(n, C(8))) is not False:
        z = st.copy()
        if z.assume(ge(n, C(8))):
            m.log(z, Ev("call", None, False, ip.where(loc), path=P + "decode", args=(), ret=("overflow",)))
            out += m.ret(z, mkerr(ip, dty, "ValueOverflow"))
    return out


def hdr(h):
    """what an ILInt header byte stands for: ('V', value) or ('at', (name, idx))"""
    a = h.single() if isinstance(h, L) else None
    if a is None or a.kind != "el":
        return None
    name, idx = a.args
    if isinstance(name, tuple) and len(name) == 3 and name[0] == "seg" and name[1] == "ilint":
        if idx == ZERO:
            return "V", name[2]
        return None
    return "at", (name, idx)


def clen(st, name, idx):
    return st.norm(A(atom("fn", ("clen", name, idx), 1, 9)))


def decv(st, name, idx):
    return st.norm(A(atom("fn", ("dec", name, idx), 0, U64)))


def encode(ip, st, c, a, dty, loc):
    m = ip.models
    v = st.norm(a[0])
    if v.const is not None:
        seq = Seq("u8", [(ONE, "e", C(b)) for b in enc_const(v.const)])
    elif st.prove(C(0xF7) - v):
        seq = Seq("u8", [(ONE, "e", v)])
    else:
        seq = Seq("u8", [(st.norm(es(v)), "ilint", v)])
    st = st.copy()
    cell = ip.newcell(st, seq, "[u8]", "enc")
    out = []
    for o in m.trait_invoke(st, a[1], "il2_iltags::io::Writer", "write_all", [a[1], Ptr(cell, (), (ZERO, seq.len))], "io", loc):
        if o.kind == "panic":
            out.append(o)
            continue
        s = o.st.copy()
        s.cells.pop(cell, None)
        if not isinstance(o.val, Enum):
            raise GiveUp("result of write_all")
        if o.val.var == 0:
            out += m.ok(s, dty)
        else:
            out += m.ret(s, mkerr(ip, dty, "IOError", [o.val.fields[0]]))
    return out


def enc_const(v):
    if v < 0xF8:
        return [v]
    b = v - 0xF8
    n = max(1, (b.bit_length() + 7) // 8)
    return [0xF8 + n - 1] + list(b.to_bytes(n, "big"))


def u8res(ip):
    for k in ip.types:
        if k == "std::result::Result<u8, il2_iltags::io::ErrorKind>":
            return k
    raise GiveUp("no Result<u8>")


def decode(ip, st, c, a, dty, loc):
    m = ip.models
    r = a[0]
    st = st.copy()
    mark = len(st.log)
    out = []
    rd = {"path": "il2_iltags::io::Reader::read", "name": "read", "trait": "il2_iltags::io::Reader",
          "kind": "virtual", "targs": []}
    for o in ip.call(rd, [r], st, u8res(ip), loc):
        if o.kind == "panic":
            out.append(o)
            continue
        if not isinstance(o.val, Enum):
            raise GiveUp("result of read")
        if o.val.var != 0:
            out += m.ret(o.st.copy(), mkerr(ip, dty, "IOError", [o.val.fields[0]]))
            continue
        h = o.val.fields[0]
        out += ip.splitting(o.st, lambda s: body(ip, s, r, s.norm(h), dty, loc, mark))
    return out


def body(ip, st, r, h, dty, loc, mark):
    m = ip.models
    st = st.copy()
    i = hdr(h)
    if i is not None and i[0] == "V":
        v = i[1]
        n = st.norm(es(v))
        can_fail = False
    elif st.prove(C(0xF7) - h):
        v, n = h, ONE
        can_fail = False
    elif h.const is not None:
        n = C(h.const - 0xF6)
        v = None
        can_fail = False
    elif i is not None:
        v = decv(st, *i[1])
        n = clen(st, *i[1])
        st.assume(ge(n, st.norm(es(v))))
        can_fail = True
    else:
        d = st.decide(ge(h, C(0xF8)))
        if d is None:
            raise Split([lt(h, C(0xF8)), ge(h, C(0xF8))])
        raise GiveUp("ILInt header %s" % h)
    if n.const == 1:
        relabel(st, mark, n, v)
        return m.ok(st, dty, v)
    cell = ip.newcell(st, Seq("u8", [(n - 1, "r", ZERO)]), "[u8]", "dec")
    out = []
    for o in m.trait_invoke(st, r, "il2_iltags::io::Reader", "read_all", [r, Ptr(cell, (), (ZERO, n - 1))], "io", loc):
        if o.kind == "panic":
            out.append(o)
            continue
        s = o.st.copy()
        data = s.cells.pop(cell)
        if not isinstance(o.val, Enum):
            raise GiveUp("result of read_all")
        if o.val.var != 0:
            out += m.ret(s, mkerr(ip, dty, "IOError", [o.val.fields[0]]))
            continue
        x = v
        if x is None:
            bs = [ip.seqget(s, data, C(k)) for k in range(n.const - 1)]
            x = ZERO
            for b in bs:
                x = x * 256 + b
            x = x + 0xF8
            for z in ip.branch(s, ge(C(U64), x)):
                z = z.copy()
                relabel(z, mark, n, x)
                out += m.ok(z, dty, x)
            for z in ip.branch(s, ge(x, C(U64 + 1))):
                out += m.ret(z.copy(), mkerr(ip, dty, "ValueOverflow"))
            continue
        relabel(s, mark, n, x)
        out += m.ok(s, dty, x)
        if can_fail:
            z = s.copy()
            m.log(z, Ev("call", None, False, ip.where(loc), path=P + "decode", args=(), ret=("overflow",)))
            out += m.ret(z, mkerr(ip, dty, "ValueOverflow"))
    return out


def relabel(st, mark, n, v):
    """merge the reads of one ILInt into a single event"""
    evs = st.log[mark:]
    rds = [e for e in evs if e.kind == "rd"]
    if not rds:
        return
    e = rds[0]
    ne = Ev("rd", e.obj, True, e.site, n=n, pos=e.pos, via="ilint", val=v)
    st.log = st.log[:mark] + tuple([ne] + [x for x in evs if x.kind != "rd"])


def install_factories(ck):
    """a tag factory called by other code is abstract: what it does is decided where it is analysed on its own"""
    for i in ck.impls("tags::ILTagFactory"):
        for m in ("deserialize", "deserialize_into"):
            c = i["methods"].get(m)
            if c and not i["self"].endswith("UntouchbleTagFactory"):
                f = getattr(ck.ip.models, "t_ILTagFactory_" + m)
                ck.ip.cuts[c.get("rpath") or c["path"]] = lambda ip, st, c, a, dty, loc, f=f: f(st, c, a, dty, loc)
