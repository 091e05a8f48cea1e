"""Call graph of the dumped bodies; a call through a trait goes to every implementation in the crate."""


class CallGraph:
    def __init__(self, ck):
        self.ck = ck
        self.raw = ck.ip.raw
        self.by = {}        # (trait, method) -> [body key]
        for i in ck.dump["impls"]:
            t = (i["trait"] or "").split("<")[0]
            for m, c in i["methods"].items():
                if c.get("key") in self.raw:
                    self.by.setdefault((t, m), []).append(c["key"])
        self.memo = {}

    def callees(self, key):
        if key not in self.memo:
            out = {}
            for b in self.raw[key]["blocks"]:
                self._walk(b, out)
            out.pop(None, None)
            self.memo[key] = out
        return self.memo[key]

    def _walk(self, x, out):
        """body key -> how it is called (a trait method, or None for a direct call)"""
        if isinstance(x, dict):
            if x.get("key") in self.raw:
                out.setdefault(x["key"], None)
            elif x.get("kind") in ("virtual", "unresolved") and x.get("trait"):
                t = x["trait"].split("<")[0]
                for k in self.by.get((t, x["name"]), ()):
                    out.setdefault(k, "%s::%s" % (t, x["name"]))
            for v in x.values():
                self._walk(v, out)
        elif isinstance(x, list):
            for v in x:
                self._walk(v, out)

    def reach(self, roots):
        seen, work = set(), list(roots)
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            work += list(self.callees(k))
        return seen

    def sccs(self, roots):
        """strongly connected components with a cycle among what the roots reach (Tarjan, iterative)"""
        nodes = sorted(self.reach(roots))
        index, low, on, stack, out = {}, {}, set(), [], []
        for root in nodes:
            if root in index:
                continue
            work = [(root, iter(sorted(self.callees(root))))]
            index[root] = low[root] = len(index)
            stack.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in index:
                        index[w] = low[w] = len(index)
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.callees(w)))))
                        break
                    if w in on:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in self.callees(v):
                            out.append(sorted(c))
        return out
