"""Obligations, verdicts, known findings, evidence."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import dump as dumpmod
import interp, terms, values, witness, cuts, loops
from terms import *
from values import *

VERIF = os.path.dirname(HERE)
EVID = os.environ.get("IL_EVID") or os.path.join(VERIF, "evidence")
CR = "il2_iltags::"
RUN, STEP, TOTAL = 90, 200, 480      # seconds one run, one group of obligations, one pass may take (thorough: three times that)


class Undecided(Exception):
    pass


class Check:
    def __init__(self, pid, title, dump=None, tier=None, seed=None):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.dump = dump if dump is not None else dumpmod.make_dump()
        self.ip = interp.Interp(self.dump)
        self.ip_nocut = None
        self.items = self.dump["items"]
        self.obls = 0
        self.good = 0
        self.viol = {}          # key -> message
        self.undec = {}         # key -> reason
        self.nund = 0
        self.samples = []
        self.rules = {}         # rule -> [checked, ok]
        self.entries = []
        self.notes = []
        self.n = 0
        self.limit = float(os.environ.get("IL_LIMIT", "1500" if self.tier == "thorough" else "480"))
        self.assumptions = []
        self.pathfacts = {}
        self._bp = {}
        for k, f in self.ip.raw.items():
            self._bp.setdefault(f["path"], []).append(k)

    # ---- anchors
    def find(self, path):
        """keys of analysed bodies with this display path (crate prefix implied)"""
        for p in (path, CR + path):
            if p in self._bp:
                return self._bp[p][0]
        return None

    def anchor(self, path):
        k = self.find(path)
        if k is None:
            self.violation("anchor:" + path, "the public entry point %s is gone: nothing decides the property there" % path)
        return k

    def impls(self, trait):
        t = trait if trait.startswith("std::") else CR + trait
        return [i for i in self.dump["impls"] if i["trait"] and (i["trait"] == t or i["trait"].split("<")[0] == t)]

    def meth(self, trait, self_ty, name):
        """body key of the method `name` an impl of `trait` for `self_ty` runs"""
        for i in self.impls(trait):
            if i["self"] == self_ty or i["self"] == CR + self_ty:
                c = i["methods"].get(name)
                if c is None:
                    return None
                k = c.get("key")
                return k if k in self.ip.raw else None
        return None

    def manchor(self, trait, self_ty, name):
        k = self.meth(trait, self_ty, name)
        if k is None:
            self.violation("anchor:<%s as %s>::%s" % (self_ty, trait, name), "the method <%s as %s>::%s is gone" % (self_ty, trait, name))
        return k

    def use_cuts(self):
        cuts.install(self.ip)

    # ---- running the abstract interpreter
    def fresh_name(self, i):
        return ("p", self.n, i)

    def args(self, key, **over):
        self.n += 1
        fn = self.ip.fn(key)
        return [over.get("a%d" % i, None) if "a%d" % i in over else self.ip.sym(fn.locals[i + 1][0], ("p", self.n, i))
                for i in range(fn.argc)]

    def run(self, what, key, args, st=None, budget=60000):
        """outcomes of an entry point, or None (undecided, recorded)"""
        if time.time() - self.t0 > self.limit:
            self.undecided("run:" + what, "time limit of the check")
            return None
        ip = self.ip
        ip.stack = []
        ip.budget = budget
        prev = self._within(RUN)
        try:
            outs = ip.splitting(st if st is not None else State(), lambda s: ip.run_fn(ip.fn(key), args, s, None))
            if what not in self.entries:
                self.entries.append(what)
            t = ip.raw[key]["locals"][0][0]
            if t.startswith("std::result::Result<") and "fmt::Error" not in t:
                for o in outs:
                    if o.kind == "ret" and is_ok(o.val) is None:
                        self.undecided("outcome:" + what, "%s returns a result the analysis has lost track of" % what)
                        break
            return outs
        except GiveUp as e:
            ip.stack = []
            self.undecided("run:" + what, "analysis gave up: %s" % e)
        except RecursionError:
            ip.stack = []
            self.undecided("run:" + what, "analysis gave up: recursion")
        except Split as e:
            ip.stack = []
            self.undecided("run:" + what, "analysis gave up: unresolved case split %s" % (e.conds,))
        except terms.Deadline:
            self._late("run:" + what)
        except Exception as e:
            if os.environ.get("IL_DEBUG"):
                traceback.print_exc()
            ip.stack = []
            self.undecided("run:" + what, "analysis gave up: internal %s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            terms.set_deadline(prev)
        return None

    def _within(self, seconds):
        """give what follows this long at most; the deadline to restore afterwards"""
        prev = terms._limit[0]
        terms.set_deadline(min(prev, time.monotonic() + seconds * (3 if self.tier == "thorough" else 1)))
        return prev

    def _late(self, what):
        self.ip.stack = []
        self.ip.quiet = 0
        self.undecided(what, "analysis gave up: time limit")

    def step(self, name, f, *args):
        """run one group of obligations; shapes the rule cannot read are undecided, never a verdict"""
        prev = self._within(STEP)
        try:
            return f(*args)
        except terms.Deadline:
            self._late("step:" + name)
        except (GiveUp, Undecided) as e:
            self.undecided("step:" + name, "analysis gave up: %s" % e)
        except Split as e:
            self.undecided("step:" + name, "analysis gave up: unresolved case split %s" % (e.conds,))
        except RecursionError:
            self.undecided("step:" + name, "analysis gave up: recursion")
        except Exception as e:
            if os.environ.get("IL_DEBUG"):
                traceback.print_exc()
            self.undecided("step:" + name, "analysis gave up: internal %s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            terms.set_deadline(prev)
        self.ip.stack = []
        return None

    def cases(self, st, f):
        """f(state) under whatever case splits reading its operands needs"""
        self.ip.splitting(st, lambda s: f(s) or [])

    def _timed(self, check, seconds):
        prev = self._within(seconds)
        try:
            check(self)
        except terms.Deadline:
            self._late("run")
        finally:
            terms.set_deadline(prev)

    def go(self, check, limit=150):
        """prove; where that leaves something undecided, look for a violation among the runs with few loop iterations"""
        self._timed(check, TOTAL)
        if (not self.undec or self.viol) and not os.environ.get("IL_REFUTE") and self.tier != "thorough":
            return          # (thorough: try to refute what was proved, too)
        keep = (self.obls, self.good, self.rules, dict(self.undec), list(self.samples), self.nund)
        self.ip.refute = 3
        self.rules = {}
        old, self.limit = self.limit, min(self.limit, time.time() - self.t0 + limit)
        try:
            self._timed(check, limit)
        finally:
            self.obls, self.good, self.rules, self.undec, self.samples, self.nund = keep
            self.limit = old
            self.ip.refute = 0

    # ---- obligations
    def rule(self, r):
        self.cur = r

    def _count(self, rule, ok):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        self.obls += 1
        if ok:
            r[1] += 1
            self.good += 1

    def ob(self, rule, key, st, cond, msg, where=None, extra=()):
        """cond must hold in abstract state st; three-valued"""
        try:
            d = st.decide(cond) if st is not None else cond
        except Split:
            d = None
        if d is True and st is not None and any(isinstance(n, tuple) and n[0] == "opq" for n in st.notes):
            self._count(rule, False)
            self.undecided(rule + ":" + key, msg + " [only if the calls the analysis does not model leave everything alone: %s]"
                           % ", ".join(sorted({n[1] for n in st.notes if isinstance(n, tuple) and n[0] == "opq"})))
            return None
        if d is True:
            self._count(rule, True)
            if len(self.samples) < 12 and self.obls % 7 == 1:
                self.samples.append("%s %s: %s" % (rule, key, msg))
            return True
        self._count(rule, False)
        if st is None and self.ip.refute:
            return None
        if st is None:
            self._viol(rule, key, msg, where, "")
            return False
        neg = negc(cond)
        if st.notes or witness.taint(st, cond):
            self.undecided(rule + ":" + key, msg + " [depends on an operation the analysis does not model: %s]"
                           % (", ".join(sorted({n[1] for n in st.notes if isinstance(n, tuple) and len(n) > 1})) or "term"))
            return None
        v = witness.search(st, neg, self.seed, extra=extra)
        if v is None:
            self.undecided(rule + ":" + key, msg + " [not proved, and no confirming valuation found]")
            return None
        atoms = set()
        for f in st.facts + st.nes:
            atoms |= f.deep_atoms()
        if not isinstance(cond, bool):
            atoms |= cond.deep_atoms()
        self._viol(rule, key, msg, where, witness.describe(v, [a for a in atoms if a.kind in ("in", "el", "fn", "fr")]))
        return False

    def path_ob(self, rule, key, st, ok, msg, where=None):
        """a structural obligation on a feasible path: violated iff `ok` is false and the path is feasible"""
        return self.ob(rule, key, st, bool(ok), msg, where)

    def relaxed(self, st):
        """st without the facts about loop states the analysis has no closed form for"""
        from models import tainted
        st = st.copy()
        st.facts = tuple(f for f in st.facts if not tainted((f,)))
        st.nes = tuple(f for f in st.nes if not tainted((f,)))
        st.sub = {a: r for a, r in st.sub.items() if not tainted((a, r))}
        st._pc = None
        return st

    def fact(self, rule, key, ok, msg, where=None):
        """a path-independent structural obligation"""
        if self.ip.refute:
            return ok
        self._count(rule, ok)
        if not ok:
            self._viol(rule, key, msg, where, "")
        return ok

    def _viol(self, rule, key, msg, where, wit):
        k = "%s:%s" % (rule, key)
        if k not in self.viol:
            w = ""
            if where:
                w = " at %s" % _where(where)
            witness.CAP[0] = min(witness.CAP[0], witness.spent[0] + 40)
            self.viol[k] = msg + w + ((" [e.g. " + wit + "]") if wit else "")

    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def some(self, key, n, mark, msg):
        """there must be at least one path of a kind, unless the analysis gave up since `mark`"""
        if n == 0 and (self.nund > mark or self.ip.refute):
            return
        self.fact("some", key, n > 0, msg)

    def undecided(self, key, why):
        self.nund += 1
        self.undec.setdefault(key, why)

    # ---- result
    def finish(self, explanation, level="other", extra=None, floor=1):
        known = load_known().get(self.pid, {})
        new, old = {}, {}
        for k, m in self.viol.items():
            (old if k in known else new)[k] = m
        if self.good < floor and not new:
            self.undecided("floor", "only %d obligations were discharged (floor %d)" % (self.good, floor))
        cov = {
            "explanation": explanation,
            "rules": {r: {"checked": a, "proved": b} for r, (a, b) in sorted(self.rules.items())},
            "obligations": self.obls,
            "discharged": self.good,
            "undecided": [{"obligation": k, "why": v} for k, v in sorted(self.undec.items())],
            "known_findings": sorted(old),
            "violations": [{"key": k, "what": v} for k, v in sorted(new.items())],
            "entry_points": len(self.entries),
            "entry_point_list": sorted(self.entries),
            "functions_analysed": len(self.ip.stats["fns"]),
            "mir_statements": self.ip.stats["stmts"],
            "calls_resolved": self.ip.stats["calls"],
            "loops_summarised": self.ip.stats["loops"],
            "unmodelled_calls": dict(self.ip.stats["opaque"]),
            "bodies_in_dump": len(self.dump["fns"]),
            "samples": self.samples[:12] or ["(no sample)"],
        }
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions + [
                  "rustc's MIR of the current tree (cargo +nightly check, overflow checks on) is what is compiled",
                  "std functions behave as modelled in sa/models.py; sa/*.py and driver/ are trusted"],
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("%s %s: %d obligations, %d proved, %d undecided, %d violated, %d known; %.1fs" % (
            self.pid, self.title, self.obls, self.good, len(self.undec), len(new), len(old), time.time() - self.t0))
        for k, why in sorted(self.undec.items()):
            print("  undecided %s: %s" % (k, why[:400]))
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        if new:
            rp = os.path.join(EVID, self.pid + ".report.txt")
            with open(rp, "w") as f:
                for k, m in sorted(new.items()):
                    f.write("%s\n  %s\n" % (k, m))
            for k, m in sorted(new.items()):
                print("  violated %s: %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        return 0


def _where(w):
    if isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], str):
        return "%s%s" % (w[0], " (%s)" % ":".join(map(str, w[1])) if w[1] else "")
    return str(w)


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(None, 1))
                out.setdefault(d["property"], {})[d["key"].strip()] = what.strip()
    return out


# ---------------------------------------------------------------- helpers on outcomes
def is_ok(v):
    """Ok/Some discrimination of a Result value: True/False/None"""
    if isinstance(v, Enum) and v.ty.startswith("std::result::Result"):
        return v.var == 0
    return None


def err_name(ip, v):
    """name of the error variant carried by Err(v), '?' if unknown"""
    if not isinstance(v, Enum) or not v.fields:
        return "?"
    e = v.fields[0]
    if isinstance(e, Enum):
        return ip.t(e.ty)["variants"][e.var]["name"]
    return "?"


def events(st, kind=None, log=None):
    """all events of a path, including those of summarised loop iterations"""
    out = []
    for e in (st.log if log is None else log):
        if e.kind == "star":
            for b in e.bodies:
                out += events(st, kind, b)
        elif kind is None or e.kind == kind:
            out.append(e)
    return out


def failed(st, kind, obj=None):
    return [e for e in events(st, kind) if not e.ok and (obj is None or e.obj == obj)]


def written(st, obj=None):
    """the bytes successfully written, as one Seq, per writer"""
    return Seq("u8", _written(st.log, obj))


def _written(log, obj):
    segs = ()
    for e in log:
        if e.kind == "wr" and e.ok and (obj is None or e.obj == obj):
            segs += e.d["seq"].segs
        elif e.kind == "star":
            bs = []
            for b in e.bodies:
                w = _written(b, obj)
                if w not in bs:
                    bs.append(w)
            if not bs or bs == [()]:
                continue
            if len(bs) > 1:
                raise GiveUp("iterations of a loop write different things")
            n = ZERO
            for g in bs[0]:
                n = n + g[0]
            segs += ((loops.mksum(e.count, e.bv, n), "star", e.count, e.bv, bs[0]),)
    return segs
