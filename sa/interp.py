"""Interprocedural abstract interpreter over the MIR dump.

Control is followed with trace partitioning: a state is split only where a
condition is not decided by the facts, loops are either bounded by constants
or replaced by an inductive summary (loops.py).  Nothing is executed and no
solver is consulted.
"""
import json, os, sys
from terms import *
from values import *

sys.setrecursionlimit(20000)

INT_RANGES = {}


class Out:
    """outcome of a function: kind ret/panic"""
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.info = info

    def __repr__(self):
        return "%s %s %s" % (self.kind, self.val, self.info or "")


class Fn:
    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.path = d["path"]
        self.dp = d["dp"]
        self.local = d["local"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.loops = None
        self.live = None
        self.taken = None

    def line(self):
        return self.d.get("loc")


def shape(x):
    if isinstance(x, (L, Atom)):
        return "#"
    if isinstance(x, tuple):
        return tuple(shape(y) for y in x)
    return x


def ilint_bytes(v):
    """the canonical ILInt encoding of v"""
    if v < 0xF8:
        return bytes([v])
    v -= 0xF8
    n = max(1, (v.bit_length() + 7) // 8)
    return bytes([0xF7 + n]) + v.to_bytes(n, "big")


class Interp:
    MAX_UNROLL = 24
    MAX_CONST_UNROLL = 1100

    def __init__(self, dump):
        self.dump = dump
        self.types = dump["types"]
        self.raw = dump["fns"]
        self.fns = {}
        self.vtables = dump["vtables"]
        self.items = dump["items"]
        self.ctype = {}
        self.cuts = {}          # fn path -> handler(interp, st, callee, args, dty) -> list[Out]
        self.seqinv = []
        self.stack = []
        self.site = None
        self.stats = {"fns": set(), "calls": 0, "stmts": 0, "paths": 0, "loops": 0, "asserts": 0, "opaque": {}}
        self.closure_args = None
        self.frameno = 0
        import models
        self.models = models.Models(self)
        self.budget = 4_000_000
        self.debug = bool(os.environ.get("IL_DEBUG"))
        self.hook = None        # called with (state, event) for every event in a reachable abstract state
        self.quiet = 0
        self.starcount = {}    # ... -> the number of iterations done before it
        self.stars = {}         # loop variable of a summarised loop -> states at the end of an iteration          # inside a tentative loop summary: states are hypotheses, not reachable states
        self.small = False     # contents of moderate size only (see lenmax)
        self.refute = 0
        self.by_path = {}
        for it in self.items:
            self.by_path.setdefault(it["path"], []).append(it)

    # ------------------------------------------------------------ types
    def t(self, ty):
        return self.types.get(ty) or {"k": "other"}

    def intinfo(self, ty):
        """(bits, signed) for scalar types represented as linear forms"""
        i = self.t(ty)
        k = i["k"]
        if k == "uint":
            return i["bits"], False
        if k == "int":
            return i["bits"], True
        if k == "float":
            return i["bits"], False
        if k == "char":
            return 32, False
        return None

    def trange(self, ty):
        b, s = self.intinfo(ty)
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def adt(self, ty):
        i = self.t(ty)
        return i.get("def") if i["k"] == "adt" else None

    def esize(self, ty):
        """lower bound on the size in bytes of an element"""
        ii = self.intinfo(ty)
        if ii:
            return ii[0] // 8
        k = self.t(ty)["k"]
        if k in ("ref", "ptr"):
            return 8
        d = self.adt(ty)
        if d in ("std::boxed::Box",):
            return 8
        if d in ("std::string::String", "std::vec::Vec"):
            return 24
        return 1

    VEC = ("std::vec::Vec",)
    STRING = ("std::string::String",)
    BOX = ("std::boxed::Box",)
    MAP = ("std::collections::HashMap", "std::collections::BTreeMap")

    def is_seq(self, ty):
        i = self.t(ty)
        return i["k"] in ("slice", "str", "array") or self.adt(ty) in self.VEC + self.STRING

    def ety(self, ty):
        i = self.t(ty)
        if i["k"] in ("slice", "array"):
            return i["elem"]
        if i["k"] == "str" or self.adt(ty) in self.STRING:
            return "u8"
        if self.adt(ty) in self.VEC:
            return i["args"][0]
        return "u8"

    # ------------------------------------------------------------ symbolic values of a type
    def sym(self, ty, name):
        i = self.t(ty)
        k = i["k"]
        ii = self.intinfo(ty)
        if ii:
            lo, hi = self.trange(ty)
            if k == "char":
                hi = 0x10FFFF
            return A(atom("in", (name,), lo, hi))
        if k == "bool":
            return mkc("ne", A(atom("in", (name,), 0, 1)))
        if k in ("ref", "ptr"):
            return self.symptr(i["to"], name)
        if k == "tuple":
            return Struct(ty, [self.sym(f, (name, n)) for n, f in enumerate(i["fields"])])
        if k == "array" and i["len"] is not None:
            return Seq(i["elem"], [(C(i["len"]), "o", name, ZERO)])
        if k in ("slice", "str") or self.adt(ty) in self.VEC + self.STRING:
            n = A(atom("fn", ("len", name), 0, self.lenmax(self.ety(ty))))
            return Seq(self.ety(ty), [(n, "o", self.seqname(ty, name), ZERO)])
        if self.adt(ty) in self.BOX:
            return self.symptr(i["args"][0], name)
        if self.adt(ty) in self.MAP:
            return MapV(ty, name)
        if k == "adt" and i["kind"] == "struct" and (i["local"] or i["def"] in ("std::ops::Range", "std::ops::RangeInclusive")):
            return Struct(ty, [self.sym(f["ty"], (name, f["name"])) for f in i["variants"][0]["fields"]])
        if k == "adt" and i["kind"] == "struct" and not i["variants"][0]["fields"]:
            return Struct(ty, [], v.get("key"))
        return Opq(ty, name)

    def lenmax(self, ety):
        """how many elements a sequence of the environment may have"""
        es = max(1, self.esize(ety))
        if self.small:
            return 1 << (32 if es == 1 else 28)
        return LENMAX // es

    def seqname(self, ty, name):
        if self.t(ty)["k"] == "str" or self.adt(ty) in self.STRING:
            return ("s", name)
        return name

    def symptr(self, to, name):
        cell = ("x", name)
        self.ctype.setdefault(cell, to)
        i = self.t(to)
        rng = None
        if i["k"] in ("slice", "str"):
            n = A(atom("fn", ("len", name), 0, self.lenmax(self.ety(to))))
            rng = (ZERO, n)
        return Ptr(cell, (), rng)

    # ------------------------------------------------------------ memory
    def shapetype(self, cell):
        """type of a cell whose name was rebuilt with other index terms"""
        sh = shape(cell)
        ts = {t for c, t in self.ctype.items() if c[0] == "x" and t is not None and shape(c) == sh}
        return ts.pop() if len(ts) == 1 else None

    def getcell(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            if cell[0] != "x":
                raise GiveUp("read of uninitialised cell %s" % (cell,))
            ty = self.ctype.get(cell)
            if ty is None:
                ty = self.ctype[cell] = self.shapetype(cell)
            i = self.t(ty)
            if i["k"] in ("slice", "str"):
                n = A(atom("fn", ("len", cell[1]), 0, self.lenmax(self.ety(ty))))
                v = Seq(self.ety(ty), [(n, "o", self.seqname(ty, cell[1]), ZERO)])
            else:
                v = self.sym(ty, cell[1] if not isinstance(cell[1], tuple) else cell[1])
            st.cells[cell] = v
        return v

    def load(self, st, cell, path):
        v = self.getcell(st, cell)
        for el in path:
            v = self.proj(st, v, el)
        return v

    def proj(self, st, v, el):
        k = el[0]
        if isinstance(v, Ptr):
            return v            # Box/Unique/NonNull internals
        if k == "f":
            if isinstance(v, Struct):
                if el[1] < len(v.fields):
                    return v.fields[el[1]]
                raise GiveUp("field %s of %s" % (el, v))
            if isinstance(v, Enum):
                return v.fields[el[1]]
            if isinstance(v, VView):
                return self.vfield(v, el[1])
            if isinstance(v, Opq):
                return self.ofield(v, el[1], el[2] if len(el) > 2 else None)
            if isinstance(v, Seq):
                return Opq(el[2] if len(el) > 2 else "?", ("seqint", el[1]))
            if v is None:
                raise GiveUp("field of uninitialised value")
        elif k == "v":
            if isinstance(v, Enum):
                if v.var != el[1]:
                    raise Infeasible()
                return v
            if isinstance(v, Opq):
                return VView(v, el[1])
            return v
        elif k == "ix":
            return self.seqget(st, v, el[1])
        raise GiveUp("projection %s of %r" % (el, v))

    def vfield(self, v, i):
        o = v.o
        info = self.t(o.ty)
        if info["k"] == "adt":
            f = info["variants"][v.var]["fields"][i]
            return self.sym(f["ty"], (o.name, "v", v.var, i))
        raise GiveUp("variant field of %s" % o)

    def ofield(self, o, i, ty=None):
        info = self.t(o.ty)
        k = info["k"]
        if k == "adt" and info["kind"] == "struct":
            f = info["variants"][0]["fields"][i]
            return self.sym(f["ty"] or ty, (o.name, f["name"]))
        if k == "adt" and info["kind"] == "enum":
            return self.vfield(VView(o, 0), i)
        if k in ("closure", "tuple"):
            return self.sym(info["fields"][i], (o.name, i))
        if ty is not None:
            return self.sym(ty, (o.name, i))
        raise GiveUp("field %d of opaque %s" % (i, o))

    def expand(self, o):
        """explicit struct for an opaque struct value"""
        info = self.t(o.ty)
        if info["k"] == "adt" and info["kind"] == "struct":
            return Struct(o.ty, [self.sym(f["ty"], (o.name, f["name"])) for f in info["variants"][0]["fields"]])
        if info["k"] in ("tuple", "closure"):
            return Struct(o.ty, [self.sym(f, (o.name, n)) for n, f in enumerate(info["fields"])])
        raise GiveUp("write into opaque %s" % o)

    def store(self, st, cell, path, val):
        if cell[0] == "ro":
            raise GiveUp("change through a reference to a map entry")
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self._upd(st, self.getcell(st, cell) if (cell in st.cells or cell[0] == "x") else None,
                                   path, val, cell)

    def _upd(self, st, v, path, val, cell=None):
        if not path:
            return val
        el = path[0]
        if el[0] == "ix":
            if len(path) > 1:
                val = self._upd(st, self.seqget(st, v, el[1]), path[1:], val)
            return self.seqset(st, v, el[1], val)
        if v is None:
            # partially initialised aggregate: build from type
            ty = self.ctype.get(cell)
            i = self.t(ty)
            if el[0] == "f" and i["k"] in ("adt", "tuple"):
                n = len(i["fields"]) if i["k"] == "tuple" else len(i["variants"][0]["fields"])
                fs = [None] * n
                fs[el[1]] = self._upd(st, None, path[1:], val)
                return Struct(ty, fs)
            raise GiveUp("partial init of %s" % ty)
        if el[0] == "v":
            if isinstance(v, Opq):
                info = self.t(v.ty)
                fs = [self.vfield(VView(v, el[1]), i) for i in range(len(info["variants"][el[1]]["fields"]))]
                v = Enum(v.ty, el[1], fs)
            if isinstance(v, Enum):
                if v.var != el[1]:
                    raise Infeasible()
                return self._upd(st, v, path[1:], val)
            raise GiveUp("variant store")
        if el[0] == "f":
            if isinstance(v, Ptr):
                return val
            if isinstance(v, Opq):
                v = self.expand(v)
            if isinstance(v, (Struct, Enum)):
                fs = list(v.fields)
                fs[el[1]] = self._upd(st, fs[el[1]], path[1:], val)
                if isinstance(v, Enum):
                    return Enum(v.ty, v.var, fs)
                return Struct(v.ty, fs, v.fn)
        raise GiveUp("store %s into %r" % (path, v))

    # ------------------------------------------------------------ sequences
    def elem(self, ety, name, idx):
        ii = self.intinfo(ety)
        if ii:
            lo, hi = self.trange(ety)
            return A(atom("el", (name, idx), lo, hi))
        if self.t(ety)["k"] == "bool":
            return mkc("ne", A(atom("el", (name, idx), 0, 1)))
        return self.sym(ety, ("el", name, idx))

    def seqget(self, st, v, idx):
        if isinstance(v, Opq):
            return self.sym(self.ety(v.ty), ("el", v.name, idx))
        if not isinstance(v, Seq):
            raise GiveUp("index of %r" % (v,))
        idx = st.norm(idx)
        pos = ZERO
        for s in v.segs:
            n = s[0]
            off = idx - pos
            inlo = st.prove(off)
            inhi = st.prove(n - off - 1)
            if inlo and inhi:
                return self.segelem(st, v.ety, s, off)
            if st.prove(off - n):
                pos = pos + n
                continue
            if st.prove(-off - 1):
                break
            # undecided which segment
            conds = []
            if not inhi:
                raise Split([lt(off, n), ge(off, n)])
            raise Split([ge(off, C(0)), lt(off, C(0))])
        raise Infeasible()

    def segelem(self, st, ety, s, off):
        k = s[1]
        if k in ("e", "r"):
            return s[2]
        if k == "o":
            return self.elem(ety, s[2], s[3] + off)
        if k == "star":
            # element `off` of a repetition of one-element bodies
            if len(s[4]) == 1 and s[4][0][0] == ONE and s[4][0][1] == "e":
                return rewrite(s[4][0][2], {s[3]: off}, {})
            return self.elem(ety, ("seg",) + s[2:], off)
        if k == "?" and isinstance(s[2], tuple) and s[2][0] == "cut":
            return self.elem(ety, ("seg",) + s[2][1], s[2][2] + off)
        if k == "ilint" and isinstance(s[2], L) and s[2].const is not None and off.const is not None:
            return C(ilint_bytes(s[2].const)[off.const])
        return self.elem(ety, ("seg",) + s[1:], off)

    def seqsplit(self, st, v, at):
        """(segs before at, segs after at)"""
        at = st.norm(at)
        if at.const == 0:
            return (), v.segs
        pos = ZERO
        left = []
        segs = list(v.segs)
        for i, s in enumerate(segs):
            rem = at - pos
            n = s[0]
            if st.same(rem, ZERO):
                return tuple(left), tuple(segs[i:])
            if st.prove(rem - n):
                left.append(s)
                pos = pos + n
                if st.same(rem, n):
                    return tuple(left), tuple(segs[i + 1:])
                continue
            if s[1] == "star" and not (len(s[4]) == 1 and s[4][0][0] == ONE):
                c = self.starcut(st, s, rem)
                if c is not None:
                    return tuple(left) + c[0], c[1] + tuple(segs[i + 1:])
            if st.prove(n - rem) and st.prove(rem):
                a, b = self.segcut(s, rem)
                return tuple(left + [a]), tuple([b] + segs[i + 1:])
            raise Split([ge(rem, n), lt(rem, n)])
        if st.same(at, pos):
            return tuple(left), ()
        if st.prove(at - pos - 1):
            raise GiveUp("split past end")
        return tuple(left), ()

    def starcut(self, st, s, rem):
        """split a repetition of several-element bodies at an offset that lies in a known iteration"""
        import models
        _, _, cnt, bv, body = s
        per = ZERO
        for g in body:
            per = per + g[0]
        ks = []
        for a, _ in rem.t:
            k = a.args[0] if a.kind == "sum" else A(a) if a.kind in ("it", "lv", "bv") else None
            if k is not None and k not in ks:
                ks.append(k)
        if not ks or rem.range()[1] < 1 << 20:
            ks += [C(i) for i in range(4)]
        for k in ks:
            d = st.norm(rem - models.mksum(k, bv, per))
            if not st.prove(d):
                continue
            if not st.prove(cnt - k - 1):
                if d == ZERO and (st.prove(cnt - k) or st.prove(s[0] - rem - 1)) and not st.prove(k - cnt):
                    raise Split([ge(k, cnt), lt(k, cnt)])
                continue
            here = rewrite(body, {bv: k}, {})
            if d != ZERO and not st.prove(rewrite(per, {bv: k}, {}) - d):
                continue
            b2 = atom("bv", (uid(),), bv.lo, bv.hi)
            rest = rewrite(body, {bv: A(b2) + k + 1}, {})
            l, r = self.seqsplit(st, Seq("u8", here), d)
            nl = models.mksum(k, bv, per)
            left = ((nl, "star", k, bv, body),) if k != ZERO else ()
            m = cnt - k - 1
            return left + tuple(l), tuple(r) + ((s[0] - nl - rewrite(per, {bv: k}, {}), "star", m, b2, rest),)
        return None

    def segcut(self, s, n):
        k = s[1]
        m = s[0] - n
        if k == "r":
            return (n, "r", s[2]), (m, "r", s[2])
        if k == "o":
            return (n, "o", s[2], s[3]), (m, "o", s[2], s[3] + n)
        if k == "e":
            raise Split([eq(n, ZERO), eq(n, ONE)])
        if k == "?":
            b, o = (s[2][1], s[2][2]) if isinstance(s[2], tuple) and s[2][0] == "cut" else (s[2], ZERO)
            return (n, "?", ("cut", b, o, n)), (m, "?", ("cut", b, o + n, m))
        if k == "star" and len(s[4]) == 1 and s[4][0][0] == ONE:
            bv = s[3]
            b2 = atom("bv", (uid(),), bv.lo, bv.hi)
            body2 = rewrite(s[4], {bv: A(b2) + n}, {})
            return (n, "star", n, bv, s[4]), (m, "star", m, b2, body2)
        return (n, "?", ("cut", s[1:], ZERO, n)), (m, "?", ("cut", s[1:], n, m))

    def seqslice(self, st, v, off, n):
        off, n = st.norm(off), st.norm(n)
        if isinstance(v, Opq):
            return Seq(self.ety(v.ty), [(n, "o", v.name, off)])
        if off.const == 0 and st.same(n, v.len):
            return v
        _, r = self.seqsplit(st, v, off)
        l, _ = self.seqsplit(st, Seq(v.ety, r), n)
        return Seq(v.ety, l)

    def seqreplace(self, st, v, off, n, new):
        l, r = self.seqsplit(st, v, off)
        _, r2 = self.seqsplit(st, Seq(v.ety, r), n)
        return Seq(v.ety, merge_segs(tuple(l) + tuple(new.segs) + tuple(r2)))

    def seqset(self, st, v, idx, val):
        return self.seqreplace(st, v, idx, ONE, Seq(v.ety, [(ONE, "e", val)]))

    def ptrseq(self, st, p):
        """contents a slice/array/Vec pointer refers to"""
        if isinstance(p, Seq):
            return p
        v = self.load(st, p.cell, p.path)
        if isinstance(v, Opq) and self.is_seq(v.ty):
            v = self.sym(v.ty, v.name)
        if not isinstance(v, Seq):
            raise GiveUp("not a sequence: %r of type %s" % (v, getattr(v, "ty", "?")))
        if p.rng is None:
            return v
        return self.seqslice(st, v, p.rng[0], p.rng[1])

    def ptrlen(self, st, p):
        if isinstance(p, Seq):
            return p.len
        if p.rng is not None:
            return p.rng[1]
        v = self.load(st, p.cell, p.path)
        if isinstance(v, Seq):
            return v.len
        raise GiveUp("len of %r" % (v,))

    def ptrfill(self, st, p, new):
        """overwrite the elements a slice pointer refers to"""
        v = self.load(st, p.cell, p.path)
        if p.rng is None:
            nv = Seq(v.ety, new.segs)
        else:
            nv = self.seqreplace(st, v, p.rng[0], p.rng[1], new)
        self.store(st, p.cell, p.path, nv)

    def deref(self, st, p):
        return self.load(st, p.cell, p.path)

    def inhabited(self, ty):
        """variants of an enum that can exist"""
        i = self.t(ty)
        out = []
        for n, v in enumerate(i.get("variants", ())):
            if not any(f["ty"] in ("!", "std::convert::Infallible") for f in v["fields"]):
                out.append(n)
        return out

    def newcell(self, st, val, ty, tag="h"):
        c = ("n", tag, uid())
        self.ctype[c] = ty
        st.cells[c] = val
        return c

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (cell, path, rng)"""
        cell = (fr, pl[0])
        path = ()
        rng = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, cell, path)
                if isinstance(v, Opq):
                    ty = v.ty
                    i = self.t(ty)
                    to = i.get("to") or (i["args"][0] if self.adt(ty) in self.BOX else None)
                    if to is None:
                        raise GiveUp("deref of %r" % v)
                    v = self.symptr(to, v.name)
                if not isinstance(v, Ptr):
                    raise GiveUp("deref of %r" % (v,))
                cell, path, rng = v.cell, v.path, v.rng
            elif k == "f":
                path = path + (("f", e[1], e[2]),)
            elif k == "v":
                path = path + (("v", e[1]),)
            elif k == "i":
                idx = self.load(st, (fr, e[1]), ())
                off = rng[0] if rng else ZERO
                path = path + (("ix", st.norm(off + idx)),)
                rng = None
            elif k == "c":
                off = rng[0] if rng else ZERO
                if e[3]:
                    n = rng[1] if rng else self.load(st, cell, path).len
                    idx = off + n - e[1]
                else:
                    idx = off + e[1]
                path = path + (("ix", st.norm(idx)),)
                rng = None
            elif k == "s":
                off = rng[0] if rng else ZERO
                n = rng[1] if rng else self.load(st, cell, path).len
                to = n - e[2] if e[3] else C(e[2])
                rng = (off + e[1], to - e[1])
            else:
                raise GiveUp("projection %s" % (e,))
        return cell, path, rng

    def read_place(self, st, fr, pl):
        cell, path, rng = self.place(st, fr, pl)
        v = self.load(st, cell, path)
        if rng is not None and isinstance(v, Seq):
            v = self.seqslice(st, v, rng[0], rng[1])
        if isinstance(v, L):
            v = st.norm(v)
        return v

    # ------------------------------------------------------------ constants
    def const(self, c, st=None):
        return self.cv(c["v"], c["ty"], c)

    def cv(self, v, ty, c=None):
        i = self.t(ty)
        if "int" in v:
            n = v["int"]
            if i["k"] == "bool":
                return bool(n)
            return C(n)
        if "fn" in v:
            return FnV(v["fn"])
        if "zst" in v:
            return Struct(ty, [], v.get("key"))
        if "bytes" in v:
            return Seq("u8", [(ONE, "e", C(b)) for b in v["bytes"]])
        if "str" in v:
            return Seq("u8", [(ONE, "e", C(b)) for b in v["str"].encode()])
        if "agg" in v:
            k = i["k"]
            if k == "array":
                return Seq(i["elem"], [(ONE, "e", self.cv(x, i["elem"])) for x in v["agg"]])
            if k == "slice":
                return Seq(i["elem"], [(ONE, "e", self.cv(x, i["elem"])) for x in v["agg"]])
            if k == "tuple":
                return Struct(ty, [self.cv(x, t) for x, t in zip(v["agg"], i["fields"])])
            if k == "adt":
                if i["def"] in self.VEC + self.STRING:
                    return Seq(self.ety(ty), [])
                var = i["variants"][v["variant"]]
                fs = [self.cv(x, f["ty"]) for x, f in zip(v["agg"], var["fields"])]
                if i["kind"] == "enum":
                    return Enum(ty, v["variant"], fs)
                return Struct(ty, fs)
        if "ref" in v:
            to = i.get("to")
            inner = v["ref"]
            val = self.cv(inner, to)
            cell = ("k", json.dumps(v, sort_keys=True)[:4000], to)
            self.ctype[cell] = to
            self.constcells[cell] = val
            rng = None
            if self.t(to)["k"] in ("slice", "str") and isinstance(val, Seq):
                rng = (ZERO, val.len)
            return Ptr(cell, (), rng)
        if v.get("promoted"):
            return PromotedRef(v["promoted"])
        return self.sym(ty, ("const", ty, uid()))

    constcells = {}

    def operand(self, st, fr, op):
        k = op[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, op[1])
        if k == "k":
            v = self.const(op[1])
            if isinstance(v, Ptr) and v.cell in self.constcells and v.cell not in st.cells:
                st.cells[v.cell] = self.constcells[v.cell]
                # nested constant refs
                for c2, v2 in list(self.constcells.items()):
                    if c2 not in st.cells:
                        st.cells[c2] = v2
            elif self.constcells and not isinstance(v, (L, bool, FnV)):
                for c2, v2 in list(self.constcells.items()):
                    if c2 not in st.cells:
                        st.cells[c2] = v2
            if isinstance(v, PromotedRef):
                return self.promoted(st, v)
            return v
        if k == "rc":
            return False        # RuntimeChecks(UbChecks): std-internal, off
        raise GiveUp("operand %s" % (op,))

    def promoted(self, st, v):
        fn = self.fn(v.key)
        outs = self.run_fn(fn, [], st, None)
        for o in outs:
            if o.kind == "ret":
                st.cells.update(o.st.cells)
                return o.val
        raise GiveUp("promoted")

    # ------------------------------------------------------------ rvalues
    def toint(self, st, c):
        """bool condition as 0/1 linear form"""
        if isinstance(c, bool):
            return C(int(c))
        if isinstance(c, Cond):
            if c.op in ("ne", "eq") and c.a.single() is not None:
                a = c.a.single()
                if (a.lo, a.hi) == (0, 1):
                    return A(a) if c.op == "ne" else 1 - A(a)
            d = st.decide(c)
            if d is not None:
                return C(int(d))
            raise Split([c, negc(c)])
        return c

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if rv[2] is None:
                raise GiveUp("repeat of generic length")
            return Seq(None or "u8", [(C(rv[2]), "r", v)])
        if k in ("ref", "raw"):
            cell, path, rng = self.place(st, fr, rv[2])
            vt = None
            # reborrow keeps the vtable of the pointer it goes through
            if rv[2][1] and rv[2][1][-1][0] == "*":
                base = self.read_place(st, fr, [rv[2][0], rv[2][1][:-1]])
                if isinstance(base, Ptr):
                    vt = base.vt
            return Ptr(cell, path, rng, vt)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == "discr":
            cell, path, rng = self.place(st, fr, rv[1])
            if cell not in st.cells and cell[0] != "x" and not path:
                live = self.inhabited(rv[2])
                if len(live) == 1:      # zero-sized: optimised std bodies never write it
                    return C(int(self.t(rv[2])["variants"][live[0]].get("discr", live[0])))
            v = self.load(st, cell, path)
            return self.discr(st, v, rv[2])
        if k == "agg":
            ops = [self.operand(st, fr, x) for x in rv[2]]
            d = rv[1]
            if d["k"] == "tuple":
                return Struct("()", ops)
            if d["k"] == "array":
                return Seq(d["elem"], [(ONE, "e", x) for x in ops])
            if d["k"] == "adt":
                i = self.t(d["ty"])
                if i["kind"] == "enum":
                    return Enum(d["ty"], d["variant"], ops)
                return Struct(d["ty"], ops)
            if d["k"] == "closure":
                return Struct(d["ty"], ops, d["key"])
            # raw pointer aggregates
            return ops[0] if ops else Struct("()", [])
        raise GiveUp("rvalue %s" % (rv[0],))

    def discr(self, st, v, ty):
        if isinstance(v, Enum):
            i = self.t(v.ty)
            return C(i["variants"][v.var]["discr"])
        if isinstance(v, Opq):
            i = self.t(v.ty)
            if i["k"] != "adt":
                raise GiveUp("discr of %r" % v)
            ds = [x["discr"] for x in i["variants"]]
            return st.norm(A(atom("fn", ("discr", v.name), min(ds), max(ds))))
        if isinstance(v, L):
            return v
        raise GiveUp("discriminant of %r" % (v,))

    def cast(self, st, kind, v, fty, tty):
        fi, ti = self.t(fty), self.t(tty)
        if kind == "IntToInt":
            if isinstance(v, (bool, Cond)):
                return self.toint(st, v)
            if isinstance(v, Opq):
                v = st.norm(A(atom("fn", ("discr", v.name), -(1 << 63), (1 << 63))))
            if isinstance(v, Enum):
                v = self.discr(st, v, fty)
            n, sg = self.intinfo(tty)
            lo, hi = self.trange(tty)
            v = st.norm(v)
            if st.prove(v - lo) and st.prove(C(hi) - v):
                return v
            if not sg and st.prove(-v - 1) and st.prove(v + (1 << n)):
                return v + (1 << n)
            if sg and st.prove(v - hi - 1) and st.prove(C((1 << n) - 1) - v):
                r = v - (1 << n)
                return r
            b = st.bits(v, n)
            if b is not None:
                r = from_bits(b)
                if r is not None:
                    return smod(r, n) if sg else r
            return smod(v, n) if sg else umod(v, n)
        if kind in ("PtrToPtr", "Subtype", "MutToConstPointer", "FnPtrToPtr", "BoxDerefTransmute"):
            return v
        if kind == "Unsize":
            return self.unsize(st, v, fty, tty)
        if kind in ("ReifyFnPointer", "UnsafeFnPointer") or kind.startswith("ClosureFnPointer") or kind.startswith("ReifyFnPointer"):
            return v
        if kind == "Transmute":
            if isinstance(v, Ptr):
                return v
            a, b = self.intinfo(fty), self.intinfo(tty)
            if a and b and a[0] == b[0]:
                return smod(v, b[0]) if b[1] else umod(v, b[0])
            if isinstance(v, Struct) and len(v.fields) == 1:
                return self.cast(st, kind, v.fields[0], "?", tty)
            return v if isinstance(v, (L,)) and b else self.sym(tty, ("transmute", uid()))
        if self.intinfo(tty):
            lo, hi = self.trange(tty)
            if isinstance(v, L):
                return A(atom("fn", ("cast", kind, fty, tty, v), lo, hi))
            return fresh("cast", lo, hi)
        return self.sym(tty, ("cast", uid()))

    def pointee(self, ty):
        i = self.t(ty)
        if i["k"] in ("ref", "ptr"):
            return i["to"]
        if self.adt(ty) in self.BOX:
            return i["args"][0]
        return None

    def unsize(self, st, v, fty, tty):
        src, dst = self.pointee(fty), self.pointee(tty)
        if not isinstance(v, Ptr) or src is None or dst is None:
            return v
        si, di = self.t(src), self.t(dst)
        if di["k"] == "slice" and si["k"] == "array":
            n = C(si["len"]) if si["len"] is not None else self.load(st, v.cell, v.path).len
            return Ptr(v.cell, v.path, (ZERO, n))
        if di["k"] == "dyn":
            if si["k"] == "dyn":
                return v
            return Ptr(v.cell, v.path, None, src)
        return v

    def wrap(self, st, x, ty):
        n, sg = self.intinfo(ty)
        lo, hi = self.trange(ty)
        if st.prove(x - lo) and st.prove(C(hi) - x):
            return x
        x = st.norm(x)
        for k in (1 << n, -(1 << n)):
            if st.prove(x + k - lo) and st.prove(C(hi) - x - k):
                return x + k
        b = st.bits(x, n)
        if b is not None:
            r = from_bits(b)
            if r is not None:
                return smod(r, n) if sg else r
        return smod(x, n) if sg else umod(x, n)

    def mul(self, st, a, b):
        from models import mkprod
        return mkprod(a, b)

    def binop(self, st, op, a, b, ty):
        if isinstance(a, Opq) and self.t(ty)["k"] == "bool":
            a = self.boolof(a)
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            return self.boolop(st, op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or not (isinstance(a, L) and isinstance(b, L)):
            if op in ("Eq", "Ne"):
                if a == b and isinstance(a, Ptr):
                    return op == "Eq"
                return mkc("ne", fresh("ptrcmp", 0, 1))
            if op in ("Lt", "Le", "Gt", "Ge"):
                return mkc("ne", fresh("ptrcmp", 0, 1))
            if op == "Cmp":
                raise GiveUp("three-way comparison")
            if op == "BitAnd" and isinstance(a, Ptr) and isinstance(b, L):
                return ZERO         # the compiler's alignment check of an owned, hence aligned, allocation
            raise GiveUp("binop %s on %r %r" % (op, a, b))
        a, b = st.norm(a), st.norm(b)
        i = self.t(ty)
        if i["k"] == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return mkc("ne", A(atom("fn", ("f" + op, a, b), 0, 1)))
            lo, hi = self.trange(ty)
            return A(atom("fn", ("f" + op, a, b), lo, hi))
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return ne(a, b)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return ge(b, a)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return ge(a, b)
        if op == "Cmp":
            oty = "std::cmp::Ordering"
            for k in (("lt", lt(a, b)), ("eq", eq(a, b)), ("gt", lt(b, a))):
                if st.decide(k[1]) is True:
                    return Enum(oty, {"lt": 0, "eq": 1, "gt": 2}[k[0]], [])
            raise Split([lt(a, b), eq(a, b), lt(b, a)])
        base = op
        ovf = False
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            ovf = True
        elif op.endswith("Unchecked"):
            base = op[:-len("Unchecked")]
        if base in ("Add", "Sub", "Mul"):
            x = a + b if base == "Add" else a - b if base == "Sub" else self.mul(st, a, b)
            lo, hi = self.trange(ty)
            if ovf:
                c = disj([lt(x, C(lo)), lt(C(hi), x)])
                if isinstance(c, Cond):
                    d = st.decide(c)
                    if d is not None:
                        c = d
                return Struct("()", [x, c])
            return self.wrap(st, x, ty)
        n, sg = self.intinfo(ty)
        if base == "Div":
            return self.div(st, a, b, sg, ty)
        if base == "Rem":
            q = self.div(st, a, b, sg, ty)
            if b.const is not None:
                k = b.const
                if k > 0 and k & (k - 1) == 0 and not sg:
                    bb = st.bits(a, n)
                    if bb is not None:
                        r = from_bits(bb[:k.bit_length() - 1])
                        if r is not None:
                            return r
                return a - q * k
            lo, hi = self.trange(ty)
            return A(atom("fn", ("rem", a, b), lo, min(hi, max(0, b.range()[1] - 1))))
        if base in ("Shl", "Shr"):
            if b.const is None:
                lo, hi = b.range()
                while lo < hi and st.prove(b - lo - 1) and lo < 130:
                    lo += 1
                while hi > lo and hi <= 130 and st.prove(C(hi - 1) - b):
                    hi -= 1
                if hi > 130 and st.prove(C(130) - b):
                    hi = 130
                    while hi > lo and st.prove(C(hi - 1) - b):
                        hi -= 1
                if hi - lo <= 130:
                    raise Split([eq(b, C(j)) for j in range(lo, hi + 1)])
                lo, hi = self.trange(ty)
                return A(atom("fn", (base, ty, a, b), lo, hi))
            k = b.const & (n - 1)
            return self.shift(st, base, a, k, n, sg, ty)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, base, a, b, n, sg, ty)
        raise GiveUp("binop %s" % op)

    def shift(self, st, base, a, k, n, sg, ty):
        bb = st.bits(a, n)
        if bb is not None:
            if base == "Shl":
                r = from_bits([0] * k + bb[:n - k])
            else:
                r = from_bits(bb[k:] + [bb[n - 1] if sg else 0] * k)
            if r is not None:
                return smod(r, n) if sg else r
        if base == "Shl":
            return self.wrap(st, a * (1 << k), ty)
        lo, hi = a.range()
        return A(atom("div", (a, 1 << k), lo >> k, hi >> k)) if not sg or st.prove(a) else \
            A(atom("fn", ("sar", a, k), lo >> k, hi >> k))

    def bitop(self, st, base, a, b, n, sg, ty):
        ba, bb = st.bits(a, n), st.bits(b, n)
        if ba is not None and bb is not None:
            out = []
            amb = {}
            for x, y in zip(ba, bb):
                r = None
                if base == "BitAnd":
                    r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else \
                        0 if neg(x) == y else None
                elif base == "BitOr":
                    r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else \
                        1 if neg(x) == y else None
                else:
                    r = y if x == 0 else x if y == 0 else neg(y) if x == 1 else neg(x) if y == 1 else \
                        0 if x == y else 1 if x == neg(y) else None
                if r is None:
                    for z in (x, y):
                        key = (z[0], z[1])
                        amb[key] = amb.get(key, 0) + 1
                out.append(r)
            if amb:
                key, cnt = max(amb.items(), key=lambda p: p[1])
                if cnt >= 3:
                    s = A(slice_atom(key[0], key[1], key[1] + 1))
                    raise Split([eq(s, ZERO), eq(s, ONE)])
            r = from_bits(out)
            if r is not None:
                return smod(r, n) if sg else r
        # mask upper bound
        lo, hi = self.trange(ty)
        al, ah = a.range()
        bl, bh = b.range()
        if base == "BitAnd" and not sg:
            hi = min(ah, bh)
        elif al >= 0 and bl >= 0:
            hi = min(hi, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            lo = 0
        x, y = sorted((a, b), key=lambda z: z._h)
        return A(atom("fn", (base, n, x, y), lo, hi))

    def div(self, st, a, b, sg, ty):
        if b.const is not None and b.const > 0:
            k = b.const
            if a.const is not None:
                q = abs(a.const) // k
                return C(q if a.const >= 0 else -q)
            if k == 1:
                return a
            n, _ = self.intinfo(ty)
            if k & (k - 1) == 0 and (not sg or st.prove(a)):
                bb = st.bits(a, n)
                if bb is not None:
                    r = from_bits(bb[k.bit_length() - 1:])
                    if r is not None:
                        return r
            if st.prove(a):
                lo, hi = a.range()
                return A(atom("div", (a, k), max(lo, 0) // k, hi // k))
        lo, hi = self.trange(ty)
        return A(atom("fn", ("div", a, b), lo, hi))

    def boolof(self, v):
        return mkc("ne", A(atom("in", (v.name,), 0, 1)))

    def boolop(self, st, op, a, b):
        if isinstance(a, L):
            a = mkc("ne", a)
        if isinstance(b, L):
            b = mkc("ne", b)
        if op == "BitAnd":
            return conj([a, b])
        if op == "BitOr":
            return disj([a, b])
        if op in ("Eq", "Ne", "BitXor"):
            inv = op != "Eq"
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                r = a if b else negc(a)
            elif a == b:
                r = True
            else:
                r = disj([conj([a, b]), conj([negc(a), negc(b)])])
            return negc(r) if inv else r
        ia, ib = self.toint(st, a), self.toint(st, b)
        if op == "Lt":
            return lt(ia, ib)
        if op == "Le":
            return ge(ib, ia)
        if op == "Gt":
            return lt(ib, ia)
        if op == "Ge":
            return ge(ia, ib)
        raise GiveUp("boolop %s" % op)

    def unop(self, st, op, a, ty):
        if op == "Not":
            if isinstance(a, Opq):
                a = self.boolof(a)
            if isinstance(a, (bool, Cond)):
                return negc(a)
            n, sg = self.intinfo(ty)
            return C(-1) - a if sg else C((1 << n) - 1) - a
        if op == "Neg":
            if self.t(ty)["k"] == "float":
                lo, hi = self.trange(ty)
                return A(atom("fn", ("fneg", a), lo, hi))
            return self.wrap(st, -a, ty)
        if op == "PtrMetadata":
            if isinstance(a, Ptr):
                return self.ptrlen(st, a)
            return Opq(ty, ("meta", uid()))
        raise GiveUp("unop %s" % op)

    # ------------------------------------------------------------ control
    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            if key not in self.raw:
                raise GiveUp("no body for %s" % key)
            f = Fn(key, self.raw[key])
            self.fns[key] = f
        return f

    def branch(self, st, cond):
        """states satisfying cond (copies)"""
        s = st.copy()
        try:
            return [s] if s.assume(cond) else []
        except Split as e:
            out = []
            for c in e.conds:
                out += self.branch(st, c)
            return out

    def splitting(self, st, f, depth=0):
        """run f(state) with retry under case splits; f returns a list"""
        s = st.copy()
        if depth > 40:
            raise GiveUp("case splits do not settle")
        try:
            return f(s)
        except Split as e:
            out = []
            for c in e.conds:
                for s2 in self.branch(st, c):
                    out += self.splitting(s2, f, depth + 1)
            return out
        except Infeasible:
            return []

    def run_fn(self, fn, args, st, site, spread=None):
        """-> list of Out"""
        if len(self.stack) > 60:
            raise GiveUp("call depth")
        self.stats["fns"].add(fn.key)
        self.frameno += 1
        fr = self.frameno
        st = st.copy()
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        for i, (ty, nm) in enumerate(fn.locals):
            self.ctype[(fr, i)] = ty
        self.stack.append((fn, site))
        try:
            outs = []
            for kind, s, x in self.run_blocks(fn, fr, st, 0, None):
                if kind == "ret":
                    try:
                        v = s.cells.get((fr, 0))
                    except KeyError:
                        v = None
                    if v is None:
                        v = Struct("()", [])
                    s = s.copy()
                    self.dropframe(s, fr, v)
                    outs.append(Out("ret", s, v))
                else:
                    outs.append(Out("panic", s, None, x))
            return outs
        finally:
            self.stack.pop()

    def dropframe(self, s, fr, v):
        for c in [c for c in s.cells if c[0] == fr]:
            del s.cells[c]

    def where(self, loc=None):
        fn = None
        for f, _ in reversed(self.stack):
            if f.local:
                fn = f
                break
        if fn is None and self.stack:
            fn = self.stack[-1][0]
        if self.stack and self.stack[-1][0] is not fn:
            # a std function: the site is the call made by the local function
            for i in range(len(self.stack) - 1, 0, -1):
                if self.stack[i - 1][0] is fn:
                    loc = self.stack[i][1]
                    break
        return (fn.path if fn else "?", tuple(loc) if loc else None)

    def run_blocks(self, fn, fr, st, bb, region):
        """explore from bb.  region=(header, bodyset): stop at header ('back') or outside ('exit', bb)."""
        import loops
        if fn.loops is None:
            loops.analyse(fn)
        res = []
        work = [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            self.budget -= 1
            if self.budget < 0:
                raise GiveUp("analysis budget exhausted")
            if region is not None and not first:
                if bb == region[0]:
                    res.append(("back", st, None))
                    continue
                if bb not in region[1]:
                    res.append(("exit", st, bb))
                    continue
            elif region is not None and first and bb != region[0] and bb not in region[1]:
                res.append(("exit", st, bb))
                continue
            if bb in fn.loops and not (region is not None and region[0] == bb):
                for kind, s, x in loops.run(self, fn, fr, st, bb):
                    if kind == "exit":
                        work.append((s, x, False))
                    else:
                        res.append((kind, s, x))
                continue
            try:
                outs = self.block(fn, fr, st, bb)
            except GiveUp:
                if not self.refute or self.budget < 0:
                    raise
                continue
            for kind, s, x in outs:
                if kind == "goto":
                    work.append((s, x, False))
                else:
                    res.append((kind, s, x))
        return res

    def block(self, fn, fr, st, bb):
        stmts, term = fn.blocks[bb]
        states = [st]
        for s in stmts:
            nxt = []
            for x in states:
                nxt += self.stmt(fn, fr, x, s)
            states = nxt
            if not states:
                return []
        out = []
        for x in states:
            out += self.splitting(x, lambda z: self.term(fn, fr, z, term))
        return out

    def stmt(self, fn, fr, st, s):
        self.stats["stmts"] += 1
        tick()
        k = s[0]
        if k == "=":
            def go(z):
                self.site = s[3]
                v = self.rvalue(z, fr, s[2])
                pl = s[1]
                if s[2][0] == "repeat" and isinstance(v, Seq):
                    v = Seq(self.ety(self.placety(fn, pl)), v.segs)
                elif s[2][0] == "agg" and isinstance(v, Struct) and v.ty == "()":
                    v = Struct(self.placety(fn, pl) or "()", v.fields, v.fn)
                elif s[2][0] == "bin" and isinstance(v, Struct):
                    pass
                cell, path, rng = self.place(z, fr, pl)
                self.store(z, cell, path, v)
                return [z]
            return self.splitting(st, go)
        if k == "dead":
            if (fr, s[1]) in st.cells:
                st = st.copy()
                del st.cells[(fr, s[1])]
            return [st]
        if k == "assume":
            c = self.operand(st, fr, s[1])
            return self.branch(st, c) if isinstance(c, (Cond, bool)) else [st]
        if k == "setd":
            cell, path, rng = self.place(st, fr, s[1])
            z = st.copy()
            ty = self.placety(fn, s[1])
            self.store(z, cell, path, Enum(ty, s[2], []))
            return [z]
        return [st]

    def placety(self, fn, pl):
        ty = fn.locals[pl[0]][0]
        for e in pl[1]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "*":
                ty = self.pointee(ty) or ty
            elif e[0] in ("i", "c"):
                ty = self.ety(ty)
        return ty

    def term(self, fn, fr, st, t):
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st, None)]
        if k == "unreach":
            return []
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t[2], t[3], t[4])
        if k == "assert":
            self.stats["asserts"] += 1
            if t[3] == "other-assert":
                # alignment/null/enum-tag checks: they only fire on undefined behaviour, which the crate's safe code excludes
                return [("goto", st, t[4])]
            c = self.operand(st, fr, t[1])
            if t[2] is False:
                c = negc(c)
            out = []
            for s in self.branch(st, c):
                out.append(("goto", s, t[4]))
            if c is not True:
                for s in self.branch(st, negc(c)):
                    out.append(("panic", s, self.panic_info(t[3], t[5])))
            return out
        if k == "call":
            return self.call_term(fn, fr, st, t)
        raise GiveUp("terminator %s" % (t,))

    def panic_info(self, kind, loc):
        return {"kind": kind, "where": self.where(loc), "stack": [f.path for f, _ in self.stack if f.local],
                "in": self.stack[-1][0].path if self.stack else "?"}

    def switch(self, st, v, ty, targets, other):
        if isinstance(v, Opq) and self.t(ty)["k"] == "bool":
            v = self.boolof(v)
        if isinstance(v, (bool, Cond)):
            out = []
            tv = {int(a): b for a, b in targets}
            fb = tv.get(0, other)
            tb = tv.get(1, other)
            for s in self.branch(st, v):
                out.append(("goto", s, tb))
            for s in self.branch(st, negc(v)):
                out.append(("goto", s, fb))
            return out
        if not isinstance(v, L):
            raise GiveUp("switch on %r" % (v,))
        ii = self.intinfo(ty)
        out = []
        s = st
        for a, b in targets:
            a = int(a)
            if ii and ii[1] and a >= 1 << (ii[0] - 1):
                a -= 1 << ii[0]
            for s2 in self.branch(s, eq(v, C(a))):
                out.append(("goto", s2, b))
            r = self.branch(s, ne(v, C(a)))
            if not r:
                return out
            s = r[0]
        out.append(("goto", s, other))
        return out

    # ------------------------------------------------------------ calls
    def call_term(self, fn, fr, st, t):
        _, callee, args, dst, target, loc, dty = t
        self.site = loc
        if callee["kind"] == "indirect":
            fv = self.operand(st, fr, callee["op"])
            av = [self.operand(st, fr, a) for a in args]
            outs = self.call_value(fv, av, st, dty, loc)
        else:
            av = [self.operand(st, fr, a) for a in args]
            outs = self.call(callee, av, st, dty, loc)
        res = []
        for o in outs:
            if o.kind == "panic":
                res.append(("panic", o.st, o.info))
                continue
            if target is None:
                continue
            s = o.st.copy()
            try:
                cell, path, rng = self.place(s, fr, dst)
                self.store(s, cell, path, o.val)
            except Infeasible:
                continue
            res.append(("goto", s, target))
        return res

    def call_value(self, fv, args, st, dty, loc, tupled=False):
        """call a closure / fn item value"""
        if tupled:
            a = args[-1]
            rest = list(a.fields) if isinstance(a, Struct) else [a]
        else:
            rest = list(args)
        if isinstance(fv, Ptr):
            fv2 = self.deref(st, fv)
            if isinstance(fv2, (Ptr, FnV)):
                return self.call_value(fv2, rest, st, dty, loc)
            if isinstance(fv2, Struct) and fv2.fn:
                fn = self.fn(fv2.fn)
                return self.run_fn(fn, [self._envarg(fn, fv, fv2)] + rest, st, loc)
            if isinstance(fv2, Opq):
                return self.models.opaque(st, {"path": "closure", "name": "call"}, rest, dty, loc)
        if isinstance(fv, FnV):
            return self.call(fv.callee, rest, st, dty, loc)
        if isinstance(fv, Struct) and fv.fn:
            fn = self.fn(fv.fn)
            env = fv
            if self.t(fn.locals[1][0])["k"] in ("ref",):
                st = st.copy()
                env = Ptr(self.newcell(st, fv, fv.ty))
            return self.run_fn(fn, [env] + rest, st, loc)
        return self.models.opaque(st, {"path": "fnptr", "name": "call"}, rest, dty, loc)

    def _envarg(self, fn, ptr, val):
        return ptr if self.t(fn.locals[1][0])["k"] == "ref" else val

    def call(self, callee, args, st, dty, loc):
        self.stats["calls"] += 1
        path = callee.get("rpath") or callee.get("path")
        cut = self.cuts.get(path)
        if cut is not None:
            r = cut(self, st, callee, args, dty, loc)
            if r is not None:
                return r
        m = self.models.find(callee)
        if m is not None:
            r = m(st, callee, args, dty, loc)
            if r is not None:
                return r
        # calls through Fn* traits
        if callee.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            return self.call_value(args[0], args[1:], st, dty, loc, tupled=True)
        if callee.get("ctor") is not None:
            ty, var = callee["ctor"]
            i = self.t(dty)
            return [Out("ret", st, Enum(dty, var, args) if i.get("kind") == "enum" else Struct(dty, args))]
        key = callee.get("key")
        if callee["kind"] in ("virtual", "unresolved"):
            p = args[0] if args else None
            if isinstance(p, Ptr) and p.vt is not None and callee.get("trait"):
                vt = self.vtables.get("%s|%s" % (p.vt, callee["trait"]))
                if vt is None:
                    for k, v in self.vtables.items():
                        if k.startswith(p.vt + "|") and v and callee["name"] in v:
                            vt = v
                if vt and callee["name"] in vt:
                    c2 = vt[callee["name"]]
                    if c2["kind"] not in ("virtual", "unresolved"):
                        return self.call(c2, [Ptr(p.cell, p.path, p.rng)] + list(args[1:]), st, dty, loc)
            return self.models.trait_call(st, callee, args, dty, loc)
        if key is not None:
            fn = self.fn(key)
            if sum(1 for f, _ in self.stack if f.key == key) >= 2:
                return self.models.opaque(st, callee, args, dty, loc, rec=True)
            if fn.d.get("shim"):
                return self.shim(fn, callee, args, st, dty, loc)
            return self.run_fn(fn, args, st, loc)
        if callee.get("never"):
            s = st.copy()
            return [Out("panic", s, None, self.panic_info("panic:" + callee["path"].split("::")[-1], loc))]
        return self.models.opaque(st, callee, args, dty, loc)

    def shim(self, fn, callee, args, st, dty, loc):
        return self.run_fn(fn, args, st, loc)


class VView:
    __slots__ = ("o", "var")

    def __init__(self, o, var):
        self.o = o
        self.var = var


class PromotedRef:
    def __init__(self, key):
        self.key = key


def merge_segs(segs):
    out = []
    for s in segs:
        if s[0].const == 0:
            continue
        if out:
            p = out[-1]
            if s[1] == "o" == p[1] and s[2] == p[2] and s[3] == p[3] + p[0]:
                out[-1] = (p[0] + s[0], "o", p[2], p[3])
                continue
            if s[1] == "r" == p[1] and s[2] == p[2]:
                out[-1] = (p[0] + s[0], "r", p[2])
                continue
        out.append(s)
    return tuple(out)
