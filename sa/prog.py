"""The type-checked program: MIR dumps of /repo's crates, with type substitution and trait resolution."""
import glob
import json
import os

class Fn:
    __slots__ = ("key", "kind", "loc", "gen", "body", "proms", "raw", "crate", "_cfg", "asyncness")
    def __repr__(self):
        return self.key

def load(dirname):
    return Prog(dirname)

class Prog:
    def __init__(self, dirname):
        self.fns, self.adts, self.impls, self.traits = {}, {}, [], {}
        self.by_trait = {}
        self.inherent = {}
        for f in sorted(glob.glob(os.path.join(dirname, "*.json"))):
            j = json.load(open(f))
            tys = self._types(j["types"])
            for k, a in j["adts"].items():
                if k in self.adts and not a.get("local"):
                    continue
                self.adts[k] = {"path": a["path"], "kind": a["kind"], "local": a.get("local"), "transparent": a.get("transparent"),
                                "loc": a.get("loc"),
                                "variants": [(v["name"], [(n, tys(t), p) for n, t, p in v["fields"]]) for v in a["variants"]]}
            for i in j["impls"]:
                if i.get("istrait"):
                    self.traits[i["key"]] = i["items"]
                    continue
                im = {"key": i["key"], "self": tys(i["self"]), "gen": i["gen"], "trait": i.get("trait"), "crate": j["crate"],
                      "targs": tuple(tys(x) for x in i["targs"]) if i.get("targs") else (), "loc": i.get("loc"),
                      "items": {n: (k, tys(v) if k == "ty" else v) for n, (k, v) in i["items"].items()}}
                self.impls.append(im)
                if im["trait"]:
                    self.by_trait.setdefault(im["trait"], []).append(im)
            for fn in j["fns"]:
                f = Fn()
                f.key, f.kind, f.loc, f.gen, f.raw, f.crate = fn["key"], fn["kind"], fn["loc"], fn["gen"], fn, j["crate"]
                f._cfg = None
                f.asyncness = fn.get("async")
                f.body = self._body(fn.get("body"), tys)
                f.proms = [self._body(b, tys) for b in fn.get("proms") or []]
                self.fns[f.key] = f

    # -------------------------------------------------- decoding
    def _types(self, table):
        memo = {}
        def go(i):
            if i is None:
                return ("?",)
            if isinstance(i, str):
                return ("'",) if i == "'" else ("const", i)
            if i in memo:
                return memo[i]
            t = table[i]
            k = t[0]
            if k == "adt":
                r = ("adt", t[1], tuple(go(x) for x in t[2]))
            elif k in ("ref", "ptr"):
                r = ("ref" if k == "ref" else "ptr", go(t[1]), t[2])
            elif k == "arr":
                r = ("arr", go(t[1]), t[2])
            elif k == "slice":
                r = ("slice", go(t[1]))
            elif k == "tup":
                r = ("tup", tuple(go(x) for x in t[1]))
            elif k == "param":
                r = ("param", t[1], t[2])
            elif k == "proj":
                r = ("proj", t[1], tuple(go(x) for x in t[2]), t[3], t[4])
            elif k in ("clo", "cor"):
                r = (k, t[1], tuple(go(x) for x in t[2])) + ((tuple(go(x) for x in t[3]),) if len(t) > 3 else ())
            elif k in ("fn", "opq"):
                r = (k, t[1], tuple(go(x) for x in t[2]))
            else:
                r = tuple(x if not isinstance(x, list) else tuple(x) for x in t)
                r = tuple(str(x) if not isinstance(x, (str, tuple, int)) else x for x in r)
            memo[i] = r
            return r
        return go

    def _body(self, b, tys):
        if not b:
            return None
        def fnref(r):
            r = dict(r)
            r["a"] = tuple(tys(x) for x in r["a"])
            if r.get("self") is not None:
                r["self"] = tys(r["self"])
            return r
        def place(p):
            out = [p[0]]
            for e in p[1:]:
                if e != "*" and e[0] == "f":
                    e = ("f", e[1], e[3] if len(e) > 3 else None, tys(e[2]))
                out.append(e if e == "*" else tuple(e))
            return tuple(out)
        def opd(o):
            k = o[0]
            if k in ("cp", "mv"):
                return (k, place(o[1]))
            if k == "fn":
                return ("fn", fnref(o[1]))
            if k == "const":
                return ("const", fnref(o[1]), o[2], tys(o[3]))
            if k == "prom":
                return ("prom", o[1], o[2], tuple(tys(x) for x in o[3]), tys(o[4]))
            if k == "int":
                return ("int", o[1], tys(o[2]) if isinstance(o[2], int) else o[2])
            if k == "zst":
                return ("zst", tys(o[1]))
            if k == "cparam":
                return ("cparam", o[1], o[2])
            return tuple(o)
        def rv(r):
            k = r[0]
            if k == "agg":
                h = r[1]
                if h[0] == "adt":
                    h = ("adt", h[1], h[2], tuple(tys(x) for x in h[3]), h[4] if len(h) > 4 else None)
                elif h[0] in ("clo", "cor"):
                    h = (h[0], h[1], tuple(tys(x) for x in h[2]))
                else:
                    h = tuple(h)
                return ("agg", h, tuple(opd(x) for x in r[2]))
            out = [k]
            for x in r[1:]:
                if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("cp", "mv", "fn", "const", "prom", "int", "zst", "cparam", "str", "c?"):
                    out.append(opd(x))
                elif isinstance(x, list) and x and isinstance(x[0], int) and not isinstance(x[0], bool):
                    out.append(place(x))
                else:
                    out.append(x)
            if k == "cast":
                out[-1] = tys(out[-1]) if isinstance(out[-1], int) else out[-1]
            return tuple(out)
        bbs = []
        for st, t, loc, cl in b["bbs"]:
            ss = []
            for s in st:
                if s[0] == "=":
                    ss.append(("=", place(s[1]), rv(s[2]), s[3] if len(s) > 3 else loc))
                elif s[0] == "setd":
                    ss.append(("setd", place(s[1]), s[2]))
            k = t[0]
            if k == "call":
                t = ("call", opd(t[1]), [opd(x) for x in t[2]], place(t[3]), t[4])
            elif k == "switch":
                t = ("switch", opd(t[1]), t[2], t[3])
            elif k == "drop":
                t = ("drop", place(t[1]), t[2])
            elif k == "assert":
                t = ("assert", opd(t[1]), t[2], t[3], t[4])
            elif k == "yield":
                t = ("yield", t[1], place(t[2]))
            else:
                t = tuple(t)
            bbs.append((ss, t, loc, cl))
        return {"argc": b["argc"], "tys": [tys(x) for x in b["tys"]], "names": b["names"], "bbs": bbs, "spread": b.get("spread")}

    # -------------------------------------------------- types
    def tsubst(self, t, g):
        """substitute generics (tuple indexed by param index) and normalise projections"""
        k = t[0]
        if k == "param":
            if t[1] < len(g) and g[t[1]] is not None:
                return g[t[1]]
            return t
        if k in ("adt", "fn", "opq", "clo", "cor"):
            r = (k, t[1], tuple(self.tsubst(x, g) for x in t[2])) + tuple(tuple(self.tsubst(x, g) for x in y) for y in t[3:])
            return r
        if k in ("ref", "ptr"):
            return (k, self.tsubst(t[1], g), t[2])
        if k == "arr":
            n = t[2]
            if isinstance(n, str) and n.startswith("#") and n[1:].split(":")[0].isdigit():
                i = int(n[1:].split(":")[0])
                if i < len(g) and g[i] and g[i][0] == "const":
                    n = g[i][1]
            return ("arr", self.tsubst(t[1], g), n)
        if k == "slice":
            return ("slice", self.tsubst(t[1], g))
        if k == "tup":
            return ("tup", tuple(self.tsubst(x, g) for x in t[1]))
        if k == "const" and isinstance(t[1], str) and t[1].startswith("#") and t[1][1:].split(":")[0].isdigit():
            i = int(t[1][1:].split(":")[0])
            if i < len(g) and g[i]:
                return g[i]
            return t
        if k == "proj":
            a = tuple(self.tsubst(x, g) for x in t[2])
            return self.project(("proj", t[1], a, t[3], t[4]))
        return t

    def project(self, t):
        r = self.find_impl(t[3], t[2])
        if r:
            im, u = r
            it = im["items"].get(t[4])
            if it and it[0] == "ty":
                return self.tsubst(it[1], u)
        return t

    def unify(self, pat, t, u):
        """match pattern type against t binding params in dict u"""
        if pat[0] == "param":
            if pat[1] in u:
                return u[pat[1]] == t or u[pat[1]][0] == "'"
            u[pat[1]] = t
            return True
        if pat[0] == "const" and isinstance(pat[1], str) and pat[1].startswith("#"):
            i = int(pat[1][1:].split(":")[0])
            if i in u:
                return u[i] == t
            u[i] = t
            return True
        if pat[0] == "'" or t[0] == "'":
            return True
        if pat[0] == "proj":
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("adt", "fn", "opq", "clo", "cor"):
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(a, b, u) for a, b in zip(pat[2], t[2]))
        if k in ("ref", "ptr"):
            return pat[2] == t[2] and self.unify(pat[1], t[1], u)
        if k == "arr":
            if isinstance(pat[2], str) and pat[2].startswith("#"):
                i = int(pat[2][1:].split(":")[0])
                u.setdefault(i, ("const", t[2]))
            elif pat[2] != t[2]:
                return False
            return self.unify(pat[1], t[1], u)
        if k == "slice":
            return self.unify(pat[1], t[1], u)
        if k == "tup":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, u) for a, b in zip(pat[1], t[1]))
        return pat == t

    def find_impl(self, trait, targs):
        """targs = [Self, trait args...] -> (impl, generics tuple)"""
        best = None
        for im in self.by_trait.get(trait, ()):
            u = {}
            n = min(len(im["targs"]), len(targs))
            if n and all(self.unify(p, t, u) for p, t in zip(im["targs"][:n], targs[:n])):
                blanket = im["targs"][0][0] == "param"
                if best is None or (best[2] and not blanket):
                    g = tuple(u.get(i, ("'",) if im["gen"][i].startswith("'") else None) for i in range(len(im["gen"])))
                    best = (im, g, blanket)
        return best[:2] if best else None

    def resolve(self, r, g):
        """fnref under generics g -> (Fn or None, generics of the callee, substituted args)"""
        a = tuple(self.tsubst(x, g) for x in r["a"])
        tr = r.get("tr")
        if tr:
            name = r["p"].rsplit("::", 1)[1]
            if name.startswith("r#"):
                name = name[2:]
            m = self.find_impl(tr, a)
            if m:
                im, u = m
                it = im["items"].get(name)
                own = a[len(im["targs"]):]
                if it and it[0] == "it":
                    return self.fns.get(it[1]), u + own, a
            if tr in self.traits:
                d = self.traits[tr].get(name)
                if d and d[1] and self.fns.get(d[0]) is not None and (m or a[0][0] != "param" or True):
                    # default method: only when the receiver has an impl without an override, or is generic
                    f = self.fns.get(d[0])
                    if f.body and (m is not None or not self.by_trait.get(tr) or a[0][0] in ("param", "ref")):
                        return f, a, a
            return None, a, a
        return self.fns.get(r["k"]), a, a

    def cfg(self, f, body=None):
        return Cfg(body or f.body)

def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "yield":
        return [t[1]]
    return []

class Cfg:
    """warm control-flow graph: without unwinding, with immediate postdominators and natural-loop headers"""
    def __init__(self, body):
        bbs = body["bbs"]
        n = len(bbs)
        self.n = n
        self.succ = [[] for _ in range(n)]
        for i, (st, t, loc, cl) in enumerate(bbs):
            if cl:
                continue
            s = []
            for x in succs(t):
                if bbs[x][1][0] == "unreach" and not bbs[x][0]:
                    continue
                if x not in s:
                    s.append(x)
            self.succ[i] = s
        # reachable
        seen, order, stack = {0}, [], [(0, iter(self.succ[0]))]
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.pred = [[] for _ in range(n)]
        for b in self.rpo:
            for x in self.succ[b]:
                self.pred[x].append(b)
        # blocks that reach return
        live = set()
        work = [b for b in self.rpo if bbs[b][1][0] == "ret"]
        while work:
            b = work.pop()
            if b in live:
                continue
            live.add(b)
            work.extend(self.pred[b])
        self.live = live
        self.cold = self._cold(body)
        warm = {b for b in live if b not in self.cold}
        if not warm or 0 not in warm:
            warm, self.cold = live, set()
        self.dom = self._dom(self.rpo, 0, lambda b: self.pred[b])
        # postdominators over live blocks, with a virtual exit -1
        rets = [b for b in self.rpo if bbs[b][1][0] == "ret" and b in warm]
        po = self._post_order(warm, rets)
        def psucc(b):
            if b in rets:
                return [-1]
            return [x for x in self.succ[b] if x in warm]
        self.pdom = self._dom([-1] + po, -1, psucc)
        # loops
        num = {b: i for i, b in enumerate(self.rpo)}
        self.headers = set()
        self.loop = {}
        for b in self.rpo:
            for x in self.succ[b]:
                if num[x] <= num[b] and self._dominates(x, b):
                    self.headers.add(x)
                    body_ = self.loop.setdefault(x, {x})
                    w = [b]
                    while w:
                        y = w.pop()
                        if y in body_:
                            continue
                        body_.add(y)
                        w.extend(self.pred[y])

    def _cold(self, body):
        """blocks from which every path ends in a panic or in returning Err"""
        bbs = body["bbs"]
        ret_res = body["tys"][0][0] == "adt" and body["tys"][0][1] == "core::result::Result"
        kind = {}
        for b in self.rpo:
            st, t = bbs[b][0], bbs[b][1]
            k = None
            if ret_res:
                for s in st:
                    if s[0] == "=" and s[1] == (0,):
                        r = s[2]
                        k = r[0] == "agg" and r[1][0] == "adt" and r[1][2] == 1
                if t[0] == "call" and t[3] == (0,) and k is None:
                    f = t[1]
                    k = f[0] == "fn" and f[1]["p"].endswith("::from_residual")
            if t[0] == "ret" and k is None:
                k = False
            if k is None and not self.succ[b]:
                k = True
            kind[b] = k
        cold = {b for b in self.rpo if kind[b]}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                if b not in cold and kind[b] is None and all(x in cold for x in self.succ[b]):
                    cold.add(b)
                    ch = True
        return cold

    def _post_order(self, live, rets):
        seen, out = set(), []
        pred = self.pred
        stack = []
        for r in rets:
            if r in seen:
                continue
            seen.add(r)
            stack.append((r, iter([p for p in pred[r] if p in live])))
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter([p for p in pred[x] if p in live])))
                        break
                else:
                    out.append(b)
                    stack.pop()
        return out[::-1]

    def _dom(self, order, root, preds):
        num = {b: i for i, b in enumerate(order)}
        idom = {root: root}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == root:
                    continue
                ps = [p for p in preds(b) if p in idom and p in num]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return idom

    def _dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.dom or self.dom[b] == b:
                return False
            b = self.dom[b]
