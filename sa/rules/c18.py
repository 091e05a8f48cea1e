"""C18: no hidden state, no outside influence; tags and factories may be shared between threads."""
import re
from .common import *
from callgraph import CallGraph

# what reads or changes the world outside the arguments
OUTSIDE = [
    (r"std::(env|fs|net|process|os)::", "the environment, file system, network or processes"),
    (r"std::time::(SystemTime|Instant)\b", "a clock"),
    (r"std::(thread|sync::mpsc)::", "threads"),
    (r"std::io::(stdin|stdout|stderr|_print|_eprint|_eprint_captured|Stdin|Stdout|Stderr)\b", "the standard streams"),
    (r"std::(hash::RandomState|collections::hash_map::RandomState)::", "randomness"),
    (r"std::(alloc|arch)::", "the allocator or the processor"),
    (r"std::random::", "randomness"),
    (r"std::panic::(set_hook|take_hook)", "the panic hook"),
]
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Once|Mutex|RwLock|Condvar|Barrier|"
                   r"Atomic\w*|LocalKey|ReentrantLock|mpmc|mpsc)\b")
LAZY = re.compile(r"^std::sync::(OnceLock|LazyLock)<")
SHARED = ("tags::ILTag", "tags::ILTagFactory", "tags::ILTagCreator")


def main():
    ck = Check("C18", "no hidden state")
    ck.go(check)
    return ck.finish(
        "Type-level: the traits of tags, factories and creators demand Send and Sync, and the compiler derives both for every type that "
        "implements them, for the creator engine and the in-memory readers and writers, without any unsafe implementation by hand. Effects: every body of the crate is "
        "searched for references to mutable, thread-local or interior-mutable statics, for calls to what reads or changes the world outside "
        "the arguments (environment, clock, files, network, threads, streams, randomness), for casts of shared to mutable pointers and of pointers to "
        "numbers; every field of every type for interior mutability.", floor=1000)


def check(ck):
    d = ck.dump
    traits = {t["path"]: t for t in d["traits"]}
    for t in SHARED:
        x = traits.get(CR + t)
        if x is None:
            ck.violation("anchor:" + t, "the trait %s is gone" % t)
            continue
        for m in ("Send", "Sync"):
            ck.fact("shared", "%s: %s" % (t, m), demands(traits, CR + t, "std::marker::" + m), "%s no longer demands %s of its implementations" % (t, m))
    adts = {a["path"]: a for a in d["adts"]}
    need = {CR + "tags::ILTagCreatorEngine"}
    for i in d["impls"]:
        tr = (i["trait"] or "").split("<")[0]
        st = i["self"].split("<")[0]
        if tr in [CR + t for t in SHARED] and "<" not in i["self"]:
            need.add(st)
        if tr in (CR + "io::Reader", CR + "io::Writer") and st.startswith(CR + "io::array::"):
            need.add(st)
        if tr in ("std::marker::Send", "std::marker::Sync"):
            a = adts.get(st)
            if a and any(re.search(r"\*(mut|const) |&'?\w* ?mut |dyn |\bRc\b", f["ty"]) or CELLS.search(f["ty"]) for f in a["fields"]):
                ck.fact("byhand", "%s for %s" % (tr, st), False, "%s is claimed by hand for %s, which does not have it by itself" % (tr, st))
    for p in sorted(need):
        a = adts.get(p)
        if a is None:
            ck.undecided("type:" + p, "%s is not a type of the crate" % p)
            continue
        for m in ("send", "sync"):
            ck.fact("autotrait", "%s: %s" % (p, m), a[m], "%s is not %s" % (p, m.capitalize()))
    for a in d["adts"]:
        for f in a["fields"]:
            m = CELLS.search(f["ty"])
            ck.fact("field", "%s.%s" % (a["path"], f["name"]), not m, "field %s of %s can be changed through a shared reference (%s)" % (f["name"], a["path"], m and m.group(0)))
    statics(ck)
    ck.step("effects", effects, ck)


def demands(traits, t, m, seen=()):
    if t == m:
        return True
    x = traits.get(t)
    return x is not None and t not in seen and any(demands(traits, s.split("<")[0], m, seen + (t,)) for s in x["supers"])


def statics(ck):
    ck.statics = {}
    for s in ck.dump["statics"]:
        bad = None
        if s["mutable"]:
            bad = "mutable"
        elif s["thread_local"]:
            bad = "thread-local"
        elif not s["freeze"] or CELLS.search(s["ty"]):
            bad = "mutable from inside"
        if bad and LAZY.match(s["ty"]):
            bad = "lazy"
        ck.statics[s["path"]] = (bad, s)
        if bad != "lazy":
            ck.fact("static", s["path"], not bad, "the static %s (%s) is %s: it outlives every call" % (s["path"], s["ty"], bad), s["loc"])
    for c in ck.dump["consts"]:
        m = re.search(r"\bLocalKey\b", str(c["ty"]))
        if m or re.search(r"\bLocalKey\b", str(ck.dump["types"].get(c["ty"], ""))[:200]):
            inner = CELLS.sub("", str(c["ty"]), 1) if m else ""
            ck.fact("static", c["path"], not CELLS.search(inner), "%s is thread-local state that can change" % c["path"])


def effects(ck):
    for key in sorted(ck.ip.raw):
        fn = ck.ip.raw[key]
        if not str(fn.get("path", "")).startswith(CR) and "il2_iltags" not in key:
            continue
        bad = {}
        lazy = []
        walk(fn["blocks"], bad, lazy, ck)
        for k, (msg, w) in sorted(bad.items()):
            ck.fact("effect", "%s: %s" % (key.replace(CR, ""), k), False, "%s %s" % (key.replace(CR, ""), msg), w)
        if not bad:
            ck._count("effect", True)
    for p, (bad, s) in sorted(ck.statics.items()):
        if bad == "lazy":
            ck.undecided("static:" + p, "%s is initialised lazily" % p)


def walk(x, bad, lazy, ck, w=None):
    if isinstance(x, dict):
        p = x.get("rpath") or x.get("path")
        if p and "kind" in x:
            for rx, what in OUTSIDE:
                if re.match(r"<?" + rx, p):
                    bad.setdefault(p, ("calls %s: it involves %s" % (p, what), w))
            if x.get("foreign"):
                bad.setdefault(p, ("calls the foreign function %s" % p, w))
            ini(ck, x, bad, w)
        if x.get("static"):
            b, s = ck.statics.get(x["static"], (None, None))
            if b not in (None, "lazy"):
                bad.setdefault(x["static"], ("uses the %s static %s" % (b, x["static"]), w))
        for v in x.values():
            walk(v, bad, lazy, ck, w)
    elif isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], str) and x[0].startswith("src/") and isinstance(x[1], int):
            return
        for v in x:
            if isinstance(v, list) and len(v) == 2 and isinstance(v[0], str) and v[0].startswith("src/"):
                w = v
        if x and x[0] == "cast" and len(x) >= 5:
            k, src, dst = x[1], str(x[3]), str(x[4])
            if k in ("PtrToPtr", "Transmute", "MutToConstPointer") and shared(src) and mutable(dst):
                bad.setdefault("cast", ("turns a shared reference or pointer into a mutable one (%s to %s)" % (src, dst), w))
            if k == "PointerExposeProvenance" or k == "Transmute" and (shared(src) or mutable(src)) and re.match(r"[ui]\d+|[ui]size", dst):
                bad.setdefault("address", ("turns an address into a number", w))
        for v in x:
            walk(v, bad, lazy, ck, w)


def shared(t):
    return t.startswith("*const ") or t.startswith("&") and not re.match(r"&('\w+ )?mut ", t)


def mutable(t):
    return t.startswith("*mut ") or re.match(r"&('\w+ )?mut ", t) is not None


def ini(ck, c, bad, w):
    """a lazily initialised static may only hold what needs no arguments: its initialiser must capture nothing"""
    if c.get("name") in ("get_or_init", "get_or_try_init", "set", "get_mut_or_init", "take", "try_insert") and "OnceLock" in (c.get("rpath") or c["path"]):
        cl = [t for t in (c.get("rtargs") or c.get("targs") or []) if "closure" in str(t) or "{" in str(t)]
        ups = [upvars(ck, t) for t in cl]
        if c["name"] == "get_or_init" and cl and all(u == 0 for u in ups) or c["name"] == "get_or_init" and any("fn(" in str(t) or "fn " in str(t) for t in c.get("rtargs") or []):
            return
        bad.setdefault(c["name"], ("keeps something that depends on a call in a OnceLock", w))


def upvars(ck, t):
    i = ck.dump["types"].get(str(t))
    if isinstance(i, dict):
        for k in ("upvars", "fields", "variants"):
            if k in i:
                return len(i[k]) if isinstance(i[k], list) else None
    return None
