"""What the rules know about the tag types: which impls there are, how to run their methods."""
from .common import *

TR = "tags::ILTag"


def tagtypes(ck):
    """(short name, self type, {method: body key}) of every ILTag implementation"""
    out = []
    for i in ck.impls(TR):
        ms = {m: c.get("key") for m, c in i["methods"].items() if c.get("key") in ck.ip.raw}
        out.append((i["self"].split("::")[-1], i["self"], ms))
    if len(out) < 29:
        ck.violation("anchor:ILTag", "only %d implementations of ILTag are left" % len(out))
    return out


def method(ck, name, ms, m):
    k = ms.get(m)
    if k is None:
        ck.undecided("anchor:%s::%s" % (name, m), "no analysable body")
    return k


def run2(ck, what, k1, k2, args1, args2, st=None):
    """run k1(args1) and then k2(args2) on the same object; yields (first outcome, second outcome)"""
    outs = ck.run(what, k1, args1, st)
    for o in outs or []:
        if o.kind == "panic":
            continue
        for q in ck.run(what, k2, args2, o.st) or []:
            yield o, q
