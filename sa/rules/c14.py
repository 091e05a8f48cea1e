"""C14: LimitedReader accounts for every byte and never passes its limit."""
from .tags import *

RD, TY = "io::Reader", "io::LimitedReader"


def main():
    ck = Check("C14", "LimitedReader accounting")
    ck.go(check)
    return ck.finish(
        "Every method of LimitedReader (Reader methods and their provided defaults included) is abstractly interpreted on a reader "
        "made by new() over an abstract source with any limit, fresh or after any successful read_all. On every path: bytes consumed "
        "from the source plus bytes still available equals the limit; an operation that asks for more than is available fails with "
        "UnableToReadData and consumes nothing; otherwise it succeeds exactly when the source does, consuming exactly what was asked.",
        floor=80)


def inherent(ck, n):
    for it in ck.items:
        if it.get("impl_self") and it["impl_self"].split("<")[0] == CR + TY and it["name"] == n and not it.get("impl_trait"):
            if it["key"] in ck.ip.raw:
                return it["key"]
    ck.violation("anchor:LimitedReader::" + n, "the method LimitedReader::%s is gone" % n)
    return None


def objects(ck, new, what, avail):
    """(state, pointer, source, bytes consumed so far, limit)"""
    a = ck.args(new)
    out = []
    for o in no_panic(ck, "new", what, ck.run("new", new, a) or []):
        s = o.st.copy()
        p = Ptr(ck.ip.newcell(s, o.val, CR + TY, "obj"))
        out.append((s, p, a[0], ZERO, a[1]))
    return out


def check(ck):
    private(ck, TY)
    ts = [i["self"] for i in ck.impls(RD) if i["self"].split("<")[0] == CR + TY]
    if not ts:
        return ck.violation("anchor:Reader for LimitedReader", "LimitedReader no longer implements Reader")
    ks = {n: inherent(ck, n) for n in ("new", "available", "can_read", "goto_end", "empty")}
    ks.update({n: ck.manchor(RD, ts[0], n) for n in ("read", "read_all", "skip", "skip_u64")})
    if None in ks.values():
        return
    ck.step("fresh", methods, ck, ks, "", objects(ck, ks["new"], "new", ks["available"]))
    ck.step("used", used, ck, ks)


def used(ck, ks):
    objs = []
    for s, p, src, c, lim in objects(ck, ks["new"], "new", ks["available"]):
        a = ck.args(ks["read_all"], a0=p)
        n = ck.ip.models.seqof(s, a[1]).len
        for q in ck.run("read_all", ks["read_all"], a, s) or []:
            if q.kind != "panic" and is_ok(q.val):
                objs.append((q.st, p, src, n, lim))
    methods(ck, ks, "after read_all, ", objs)


def account(ck, what, ks, st, p, src, lim, want):
    """consumed + available = limit, and consumed is what the model says"""
    ck.ob("consumed", what, st, eq(consumed(ck, st, src), want), "%s consumes from the source exactly what it should" % what)
    for s, n in obs(ck, "observe", what + "/available", ks["available"], [p], st):
        ck.ob("account", what, s, eq(n + consumed(ck, s, src), lim), "%s: bytes consumed plus bytes available is the limit" % what)


def methods(ck, ks, pre, objs):
    for n in ("read", "read_all", "skip", "skip_u64", "goto_end", "can_read", "empty", "available"):
        u0, cnt = ck.nund, 0
        what = pre + n
        for s, p, src, c0, lim in objs:
            a = ck.args(ks[n], a0=p)
            left = lim - c0
            n0 = len(s.log)
            ask = {"read": lambda: ONE, "read_all": lambda: ck.ip.models.seqof(s, a[1]).len, "goto_end": lambda: left}.get(
                n, lambda: a[1] if len(a) > 1 else ZERO)()
            for q in no_panic(ck, "panic", what, ck.run(what, ks[n], a, s) or []):
                st = q.st
                if n == "empty":
                    same_bool(ck, "value", what, st, q.val, eq(left, ZERO), "%s says whether the limit is reached" % what)
                    account(ck, what, ks, st, p, src, lim, c0)
                    continue
                if n == "available":
                    ck.ob("value", what, st, eq(q.val, left), "%s is the limit minus what was consumed" % what)
                    account(ck, what, ks, st, p, src, lim, c0)
                    continue
                fits = ge(left, ask)
                bad = [e for e in events(st, None, st.log[n0:]) if e.kind in ("rd", "seek") and not e.ok]
                if is_ok(q.val):
                    cnt += 1
                    ck.ob("limit", what, st, fits, "%s succeeds only within the limit" % what)
                    ck.path_ob("source", what, st, not bad, "%s does not succeed when the source failed" % what)
                    account(ck, what, ks, st, p, src, lim, c0 + (ZERO if n == "can_read" else ask))
                    if n == "read":
                        ck.cases(st, lambda z: ck.ob("value", what, z, eq(q.val.fields[0], A(atom("el", (streamname(src), z.norm(c0)), 0, 255))),
                                                     "%s returns the next byte of the source" % what) and None)
                    if n == "read_all":
                        same_seq(ck, "value", what, st, ck.ip.models.seqof(st, a[1]), stream_seq(src, c0, ask), "the buffer filled by %s" % what)
                    continue
                if not bad:
                    ck.ob("fails", what, st, negc(fits), "%s fails within the limit only if the source fails" % what)
                    e = err_name(ck.ip, q.val)
                    ck.path_ob("kind", what, st, e == "UnableToReadData", "%s past the limit fails with UnableToReadData, not %s" % (what, e))
                if not bad:
                    account(ck, what + " past the limit", ks, st, p, src, lim, c0)
                    continue
                ck.ob("fails", what + "/touch", st, fits, "%s past the limit does not touch the source" % what)
                for z, m in obs(ck, "observe", what + "/available", ks["available"], [p], st):
                    if any(e.ok for e in events(st, None, st.log[n0:]) if e.kind in ("rd", "seek")):
                        ck.ob("account", what + "/failed", z, ge(left, m), "%s: a failing source never adds to what is available" % what)
                    else:
                        ck.ob("account", what + "/failed", z, eq(left, m), "%s: what is available is as before when the source delivered nothing" % what)
        if n not in ("empty", "available"):
            ck.some(what, cnt, u0, "%s can succeed" % what)
