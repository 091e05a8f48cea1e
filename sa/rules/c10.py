"""C10: decoding terminates."""
from .decode import *
import callgraph, cuts

# dispatch through these is a wrapper handing on to the object it wraps: an exclusive borrow cannot contain itself
WRAP = {CR + "io::Reader", CR + "io::Writer"}


def main():
    ck = Check("C10", "decoding terminates")
    ck.use_cuts()
    ck.go(check)
    return ck.finish(
        "Every loop in every decoding entry point needs a ranking: an expression of the loop state, non-negative on every way around "
        "the loop and strictly smaller after it (found and proved over the loop summary of the abstract interpreter; loops with a "
        "constant bound are unrolled). A way around a loop that changes nothing the loop depends on is a violation. Recursion is read "
        "off the call graph, with calls through a trait going to every implementation: a wrapper calling the reader it wraps descends "
        "an ownership chain; recursion through nested tags must consume at least the one byte of the id at every level (so it ends "
        "with the input), and its depth must be bounded.", floor=60)


def check(ck):
    es = list(entries(ck))
    for what, kind, k, x in es:
        if kind == "memory":
            continue
        ck.step(what, loop, ck, what, kind, k)
    for what, kind, k, x in es:
        if kind == "factory":
            ck.step(what, progress, ck, what, k)
    ck.step("recursion", recursion, ck, [k for _, _, k, _ in es])
    anchors(ck)


def loop(ck, what, kind, k):
    a, st = start(ck, what, kind, k)
    ll = ck.ip.stats.setdefault("looplist", [])
    mark = len(ll)
    if ck.run(what, k, a, st) is None:
        return
    if len(ll) == mark:
        ck._count("noloop", True)
    for e in ll[mark:]:
        key = "%s/%s" % (what, e["where"][0])
        if e["rank"] is not None:
            ck._count("rank", True)
        elif e["stuck"]:
            ck.fact("progress", key, False, "%s: a way around a loop of %s changes nothing the loop depends on, so it may run for ever"
                    % (what, e["where"][0]), e["where"])
        else:
            ck._count("rank", False)
            ck.undecided("rank:" + key, "no ranking found for a loop in %s" % (e["where"],))


def progress(ck, what, k):
    """each level of nesting takes at least one byte before the next begins"""
    a, st = start(ck, what, "factory", k)

    def hook(s, e):
        if e.kind in ("subval", "subtag"):
            ck.path_ob("level", what, s, any(x.kind == "rd" and x.ok and s.prove(x.n - 1) for x in s.log),
                       "%s consumes at least one byte before it decodes the value of a tag" % what, e.site)
    ck.ip.hook = hook
    try:
        ck.run(what, k, a, st)
    finally:
        ck.ip.hook = None


def recursion(ck, roots):
    g = callgraph.CallGraph(ck)
    n = 0
    for c in g.sccs(roots):
        n += 1
        vias = set()
        direct = []
        for k in c:
            for w, via in g.callees(k).items():
                if w in c:
                    if via is None:
                        direct.append((k, w))
                    else:
                        vias.add(via)
        names = "+".join(sorted(v.replace(CR, "") for v in vias))
        if vias and all(v.rsplit("::", 1)[0] in WRAP for v in vias) and not direct:
            for k in c:
                wrapper(ck, k)
        elif vias and all(v.rsplit("::", 1)[0] in (CR + "tags::ILTag", CR + "tags::ILTagFactory", CR + "tags::payload::ILTagPayload") for v in vias):
            ck.fact("depth", names, False, "nesting of tags in the input is followed by recursion (%s) with no bound on its depth" % ", ".join(
                sorted(ck.ip.raw[k]["path"].replace(CR, "") for k in c)))
        else:
            ck.undecided("recursion:" + "+".join(sorted(ck.ip.raw[k]["path"].replace(CR, "") for k in c)), "recursion of a kind the rule does not know")
    ck._count("callgraph", True)
    ck.notes.append("%d recursive components in the call graph" % n)


def wrapper(ck, k):
    """a reader that calls a reader calls another one"""
    a = ck.args(k)
    what = ck.ip.raw[k]["path"].replace(CR, "")
    for o in ck.run(what, k, a) or []:
        for e in events(o.st, "rd"):
            ck.path_ob("wrapper", what, o.st, e.obj != (a[0].cell, a[0].path), "%s reads from the reader it wraps" % what)
