"""Specifications over summaries: run the analysis on a function, compare its summary with what the property demands."""
import itertools, time
from . import terms as t, models
from .terms import T, mk, num, ZERO, ONE, TRUE, FALSE, UNIT, lit, idx, length, arr, gen, agg, tup, some, ok, err, RES, OPT, sym
from .interp import Interp, State, Unsupported, short, norm_path
from .system import Deadlock
from .evalt import Env, O, Agg, Lazy, Undecided, NeedValue, UNMODELLED, P as PRIME

class Missing(Exception):
    """an anchor named by a property does not exist (any more)"""

class Unclear(Exception):
    """a private construct a specification is written against is not there: nothing can be said"""

class Run:
    """summary of one function: result term, final values of &mut parameters, events"""
    __slots__ = ("fn", "ret", "ev", "st", "cells", "args", "it", "dead")
    def after(self, name):
        c = self.cells[name]
        return self.it.deref_all(self.st, self.st.store[c])
    def ok(self):
        """value of the successful return"""
        v = self.ret
        if v is None:
            return None
        if v.op == "agg" and v.args[0] == RES and v.args[1] == 0:
            return v.args[2][0]
        return v

class Ctx:
    def __init__(self, prog, pid=None, tier="quick"):
        self.p, self.pid, self.tier = prog, pid, tier
        self.violations, self.obligations, self.undecided = [], [], []
        self.inlined, self.calls, self.loops, self.external = set(), 0, 0, set()
        self.paths = {}
        self.timings = {}
        self.short, self.ghost_sfx = {}, ""
        for k in prog.fns:
            self.short.setdefault(norm_path(k.replace("{", "<").replace("}", ">")), []).append(k)

    # ------------------------------------------------ anchors
    def fn(self, key, optional=False):
        f = self.p.fns.get(key)
        if f is None or f.body is None:
            if optional:
                return None
            raise Missing(key)
        return f
    def method(self, tyname, name, trait=None, crate=None, nth=None, pred=None):
        """function `name` of an impl block for local type tyname (last path segment)"""
        out = []
        for im in self.p.impls:
            s = im["self"]
            while s[0] == "ref":
                s = s[1]
            if s[0] != "adt" or s[1].split("::")[-1] != tyname:
                continue
            if (trait is None) != (im["trait"] is None):
                continue
            if trait is not None and im["trait"].split("::")[-1] != trait:
                continue
            if crate and im["crate"] != crate:
                continue
            if pred and not pred(im):
                continue
            it = im["items"].get(name)
            if it and it[0] == "it" and it[1] in self.p.fns:
                out.append((im, self.p.fns[it[1]]))
        return out
    def meth1(self, tyname, name, trait=None, crate=None, pred=None):
        r = self.method(tyname, name, trait, crate, pred=pred)
        if not r:
            raise Missing("%s::%s%s" % (tyname, name, " of " + trait if trait else ""))
        return r[0][1]

    # ------------------------------------------------ symbolic inputs
    def symval(self, it, st, ty, name, over, cells, g):
        ty = self.p.tsubst(ty, g)
        if name in over:
            v = over[name]
            v = v(it, st) if callable(v) else v
            if ty[0] == "ref" and ty[2] and v.op not in ("mref",):
                c = it.new_cell(st, v, "arg")
                cells[name] = c
                return mk("mref", c, ())
            return v
        if ty[0] == "ref":
            if ty[2]:
                v = self.symval(it, st, ty[1], name, over, cells, g)
                c = it.new_cell(st, v, "arg")
                cells[name] = c
                return mk("mref", c, ())
            return self.symval(it, st, ty[1], name, over, cells, g)
        if ty[0] == "adt":
            a = self.p.adts.get(ty[1])
            if a and a.get("local") and a["kind"] == "struct":
                fs = a["variants"][0][1]
                return agg(ty[1], 0, [self.symval(it, st, self.p.tsubst(f[1], ty[2]), name + "." + f[0], over, cells, g) for f in fs])
            if ty[1].endswith("PhantomData"):
                return UNIT
        if ty[0] == "tup":
            return tup(*[self.symval(it, st, x, name + "." + str(i), over, cells, g) for i, x in enumerate(ty[1])])
        return sym(name)
    def interp(self, ov=None):
        it = Interp(self.p, models.M, ov or {})
        def ghost(c):
            v = models.ghost_default(c)
            if v.op == "sym":
                # counters of protocol states are counters of their own, and those of separately summarised stages are told apart
                return sym(v.args[0] + self.ghost_sfx + (" " + t.show(c[2], 4) if c[1] == "pairs" else ""))
            return v
        it.ghost_default = ghost
        return it
    def run(self, f, over=None, ov=None, g=None, facts=(), store=None, as_=()):
        """summary of function f with symbolic inputs; `over` fixes inputs by (dotted) parameter name"""
        if isinstance(f, str):
            f = self.fn(f)
        over = over or {}
        it = self.interp(ov)
        st = State()
        if store:
            st.store.update(store)
        gg = tuple(("'",) if x.startswith("'") else ("const", x) if x.startswith("#") else ("param", i, x) for i, x in enumerate(f.gen))
        if g:
            gg = tuple(g.get(x.lstrip("#"), y) if isinstance(g, dict) else y for x, y in zip(f.gen, gg)) if isinstance(g, dict) else g
        cells, args, names = {}, [], {}
        for i in range(f.body["argc"]):
            nm = [n for n, p in f.body["names"] if p == [i + 1] or p == (i + 1,)]
            nm = nm[0] if nm else "arg%d" % (i + 1)
            if i < len(as_) and as_[i]:
                nm = as_[i]
            # positional alias: spec names survive parameter renaming through over["#k"]
            alias = "#%d" % i
            if alias in over:
                over = dict(over)
                for k in list(over):
                    if k == alias or k.startswith(alias + "."):
                        over[nm + k[len(alias):]] = over[k]
            v = self.symval(it, st, f.body["tys"][i + 1], nm, over, cells, gg)
            args.append(v)
            names[nm] = v
            if nm in cells:
                cells[alias] = cells[nm]
        for c in facts:
            it.assume(st, c)
        r = Run()
        r.fn, r.it, r.st, r.cells = f, it, st, cells
        r.args = {n: (it.deref_all(st, v) if v.op == "mref" else v) for n, v in names.items()}
        for i, (n, v) in enumerate(list(r.args.items())):
            r.args["#%d" % i] = v
        t0 = time.time()
        try:
            r.ret = it.inline(st, f, gg, args, f.loc)
        finally:
            self.timings[f.key] = round(time.time() - t0, 2)
            self.inlined |= it.stats["inlined"] | {f.key}
            self.calls += it.stats["calls"]
            self.loops += it.stats["loops"]
            self.external |= it.stats["external"]
        r.dead = r.ret is None
        if r.ret is not None and r.ret.op == "mref":
            r.ret = it.deref_all(st, r.ret)
        if r.ret is not None:
            r.ret = it.deep_deref(st, r.ret)
        r.ev = st.ev
        return r

    # ------------------------------------------------ verdicts
    def bad(self, fn, rule, what):
        loc = fn.loc if fn is not None and not isinstance(fn, str) else None
        key = fn.key if fn is not None and not isinstance(fn, str) else str(fn)
        if UNMODELLED:
            # a function of another crate that nothing is known about was taken to be arbitrary: no violation is claimed on that ground
            self.undecided.append({"function": key, "rule": rule, "why": "depends on %s, which the analysis does not model (would be: %s)" % (", ".join(sorted(UNMODELLED)[:4]), what)})
            return
        self.violations.append({"function": key, "file": str(loc), "rule": rule, "what": what})
    def good(self, fn, rule, how):
        self.obligations.append({"function": fn.key if hasattr(fn, "key") else str(fn), "rule": rule, "how": how})
    def unsure(self, fn, rule, why):
        self.undecided.append({"function": fn.key if hasattr(fn, "key") else str(fn), "rule": rule, "why": str(why)[:300]})

    def same(self, fn, rule, got, want, envs, ev=()):
        """got and want denote the same value wherever the function does not fail"""
        if got is None:
            self.bad(fn, rule, "never returns")
            return False
        if got is want:
            self.good(fn, rule, "identical normal form")
            return True
        n = 0
        try:
            for E in envs():
                if ev and E.fails(ev):
                    continue
                n += 1
                a, b = E.ev(got), E.ev(want)
                if E.dig(a) != E.dig(b):
                    self.bad(fn, rule, "computes %s where %s is required" % (clip(got), clip(want)))
                    return False
            # sizes around the numbers the summary compares with or divides by
            for L in around(got, want, ev):
                for E in itertools.islice(envs(), 2):
                    E.deflen = L
                    if ev and E.fails(ev):
                        continue
                    n += 1
                    if E.dig(E.ev(got)) != E.dig(E.ev(want)):
                        self.bad(fn, rule, "computes %s where %s is required (sequences of %d elements)" % (clip(got), clip(want), L))
                        return False
        except Undecided as e:
            self.unsure(fn, rule, e)
            return None
        if n == 0:
            self.bad(fn, rule, "fails on every input the property admits")
            return False
        self.good(fn, rule, "equal under %d random interpretations" % n)
        return True

    def agree(self, fn, rule, got, want, envs, ev=(), what="differs from what is required"):
        """got denotes want(E) in every interpretation (want gives a plain value: numbers mod P, lists, Agg, O)"""
        if got is None:
            self.bad(fn, rule, "never returns")
            return False
        n = 0
        try:
            for E in envs():
                if ev and E.fails(ev):
                    continue
                n += 1
                if E.dig(E.ev(got)) != E.dig(want(E)):
                    self.bad(fn, rule, "%s: computes %s" % (what, clip(got)))
                    return False
        except Undecided as e:
            self.unsure(fn, rule, e)
            return None
        if n == 0:
            self.bad(fn, rule, "fails on every input the property admits")
            return False
        self.good(fn, rule, "equal under %d random interpretations" % n)
        return True
    def decide(self, fn, rule, test, how="decided on all interpretations"):
        """test() -> None | text of the violation; Undecided is passed on as undecided"""
        try:
            w = test()
        except Undecided as e:
            self.unsure(fn() if callable(fn) else fn, rule, e)
            return None
        except Deadlock as e:
            w = str(e)
        fn = fn() if callable(fn) else fn
        if w:
            self.bad(fn, rule, w)
            return False
        self.good(fn, rule, how)
        return True

    def must_fail(self, fn, rule, ev, envs, what):
        """every interpretation in envs makes the function return an error (or panic)"""
        n = 0
        try:
            for E in envs():
                n += 1
                try:
                    r = E.fails(ev)
                except NeedValue:
                    self.bad(fn, rule, what + " (goes on to communicate)")
                    return False
                if not r or r[0] != "err":
                    self.bad(fn, rule, what + (" (panics instead, at %s)" % r[2] if r else ""))
                    return False
        except Undecided as e:
            self.unsure(fn, rule, e)
            return None
        self.good(fn, rule, "rejects under all %d interpretations" % n)
        return True
    def must_pass(self, fn, rule, ev, envs, what):
        n = 0
        try:
            for E in envs():
                n += 1
                r = E.fails(ev)
                if r:
                    self.bad(fn, rule, what + " (%s at %s)" % (r[0], r[2]))
                    return False
        except Undecided as e:
            self.unsure(fn, rule, e)
            return None
        self.good(fn, rule, "accepts under all %d interpretations" % n)
        return True
    def comm(self, fn, rule, ev, want, envs):
        """the communication actions are exactly those of want(E) -> [(kind, net, peer, payload)]"""
        n = 0
        try:
            for E in envs():
                if E.fails(ev):
                    continue
                n += 1
                got = E.trace(ev)
                got = [tuple(E.dig(x) if not isinstance(x, str) else x for x in e) for e in got]
                w = [tuple(E.dig(x) if not isinstance(x, str) else x for x in e) for e in want(E)]
                if got != w:
                    k = next((i for i, (x, y) in enumerate(zip(got, w)) if x != y), min(len(got), len(w)))
                    self.bad(fn, rule, "communication differs from the schedule at action %d (%d actions, %d expected)" % (k, len(got), len(w)))
                    return False
        except Undecided as e:
            self.unsure(fn, rule, e)
            return None
        if n == 0:
            self.bad(fn, rule, "fails on every input the property admits")
            return False
        self.good(fn, rule, "schedule agrees under %d interpretations" % n)
        return True

def critical(*roots):
    """the literals a summary compares or divides by: sizes around them are looked at too"""
    out, seen, todo = set(), set(), list(roots)
    while todo:
        x = todo.pop()
        if type(x) is tuple or type(x) is list:
            todo.extend(x)
            continue
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        todo.extend(x.args)
        if x.op in ("agg", "poly"):
            continue
        for a in [b for a in x.args for b in (a if type(a) is tuple else (a,))]:
            if type(a) is T and a.op == "poly":
                for m, c in a.args[0]:
                    if m == () and type(c) is int and 3 <= abs(c) <= 4096:
                        out.add(abs(c))
    return sorted(out)

def around(got, want, ev=(), top=1100):
    w = set(critical(want))
    l = {x for c in critical(got, ev) if c not in w for x in (c, c + 1, 2 * c + 1) if x <= top}
    return sorted(l)[-6:] if len(l) > 6 else sorted(l)

def clip(x, n=260):
    s = t.show(x, 6) if type(x) is T else str(x)
    return s if len(s) <= n else s[:n] + "…"

# ---------------------------------------------------------------- interpretations
TRUEAPPS = ("sendok", "recvok", "deser?u", "deser?", "deser?c", "deser?cu")
def honest(v):
    if v.org[0] == "app" and v.org[1] in TRUEAPPS:
        return True
    return None
def envs(n=3, seeds=(1, 2), **kw):
    def f():
        for s in seeds:
            yield Env(seed=s, deflen=n, bools=honest, **kw)
    return f
