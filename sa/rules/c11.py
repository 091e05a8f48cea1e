"""C11: no function reports success after something it relied on failed."""
from .decode import *
import cuts

SKIP = ("UntouchbleTagFactory",)


def main():
    ck = Check("C11", "failures are not swallowed")
    ck.use_cuts()
    cuts.install_factories(ck)
    ck.go(check)
    return ck.finish(
        "Every function and method of the public surface that returns a Result - readers, writers, adapters, codec, tag serialisers and "
        "decoders, factories, engine, helpers; provided trait methods once for any implementation - is abstractly interpreted with "
        "every underlying operation free to fail at any call: reads, writes, seeks, flushes, nested tags, UTF-8 validation, calls on "
        "abstract traits, in loops at a generic iteration. No path on which one of them failed may end in success.", floor=150)


def funcs(ck):
    """every function of the public surface that returns a Result"""
    seen = set()
    for i in ck.dump["impls"]:
        if any(s in i["self"] for s in SKIP):
            continue
        for m, c in sorted(i["methods"].items()):
            k = c.get("key")
            if c.get("rpath") == c["path"] and i["trait"].startswith(CR):
                continue        # a provided method, analysed once for any implementation below
            if k in ck.ip.raw and k not in seen:
                seen.add(k)
                yield "<%s as %s>::%s" % (i["self"].split("::")[-1], (i["trait"] or "").replace(CR, ""), m), k
    for it in ck.items:
        if it["key"] in ck.ip.raw and it["key"] not in seen and it["vis"]:
            seen.add(it["key"])
            yield it["path"].replace(CR, ""), it["key"]


def check(ck):
    for what, k in funcs(ck):
        if not ck.ip.raw[k]["locals"][0][0].startswith("std::result::Result<"):
            continue
        ck.step(what, one, ck, what, k)


def one(ck, what, k):
    a, st = start(ck, what, "fn", k)
    n = 0
    for o in ck.run(what, k, a, st) or []:
        if o.kind == "panic":
            continue
        if is_ok(o.val) is None and [e for e in events(o.st) if e.ok is False]:
            ck.undecided("success:%s/unknown" % what, "%s returns a value the analysis has lost after something failed" % what)
        if is_ok(o.val) is not True:
            continue
        n += 1
        bad = [e for e in events(o.st) if e.ok is False]
        # how far a loop had got when something failed does not excuse it
        ck.path_ob("success", what + ("/" + bad[0].kind if bad else ""), ck.relaxed(o.st) if bad else o.st, not bad,
                   "%s reports success only if nothing it did failed (%s)" % (what, ", ".join(e.kind for e in bad)))
