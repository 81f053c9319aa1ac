"""Whole-program structural queries over the MIR: call sites, value flow inside a body, call graph."""
from .interp import short
from .prog import Cfg, succs

class Call:
    __slots__ = ("fn", "bb", "ref", "op", "args", "dest", "loc", "p", "target", "ts")
    def __repr__(self):
        return "%s @%s" % (self.p, self.loc)

def operands(rv):
    """operands and places an rvalue reads"""
    k = rv[0]
    if k == "agg":
        return list(rv[2])
    out = []
    for x in rv[1:]:
        if isinstance(x, tuple) and x:
            if x[0] in ("cp", "mv", "fn", "const", "prom", "int", "zst", "cparam", "str", "c?"):
                out.append(x)
            elif isinstance(x[0], int) and not isinstance(x[0], bool):
                out.append(("cp", x))
    return out

class View:
    """definitions of the locals of one body"""
    def __init__(self, prog, fn, body=None):
        self.p, self.fn, self.body = prog, fn, body or fn.body
        self.calls, self.defs, self.muts, self.refs = [], {}, {}, {}
        self.rets = []
        for i, (ss, t, loc, cl) in enumerate(self.body["bbs"]):
            for s in ss:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append(("rv", s[1], s[2], i, s[3]))
                    if s[2][0] in ("ref", "rawptr", "addr") and len(s[2]) > 2 and s[2][2]:
                        self.refs.setdefault(s[1][0], []).append(s[2][1])
            if t[0] == "call":
                c = Call()
                c.fn, c.bb, c.op, c.args, c.dest, c.target = fn, i, t[1], t[2], t[3], t[4]
                c.ref = t[1][1] if t[1][0] == "fn" else None
                c.p = short(c.ref["p"]) if c.ref else ""
                c.ts = c.ref["a"] if c.ref else ()
                c.loc = loc
                self.calls.append(c)
                self.defs.setdefault(t[3][0], []).append(("call", t[3], c, i, loc))
        # a call taking &mut x defines x as well
        self.argc = self.body["argc"]
        for c in self.calls:
            for a in c.args:
                if a[0] in ("cp", "mv"):
                    for l in self.pointees(a[1][0]):
                        self.muts.setdefault(l, []).append(c)
    def pointees(self, l, seen=None):
        """locals that local l may be a mutable reference into"""
        seen = seen if seen is not None else set()
        if l in seen:
            return set()
        seen.add(l)
        out = set()
        for d in self.defs.get(l, ()):
            if d[0] == "rv":
                rv = d[2]
                if rv[0] in ("ref", "rawptr", "addr") and len(rv) > 2 and rv[2]:
                    out.add(rv[1][0])
                    out |= self.pointees(rv[1][0], seen)
                elif rv[0] in ("use", "cast", "agg"):
                    for o in operands(rv):
                        if o[0] in ("cp", "mv"):
                            out |= self.pointees(o[1][0], seen)
            elif d[0] == "call":
                for a in d[2].args:
                    if a[0] in ("cp", "mv"):
                        out |= self.pointees(a[1][0], seen)
        return out
    def back(self, op, stop=None, seen=None):
        """everything the value of an operand may come from: ('call',Call) ('const',operand) ('arg',i)"""
        seen = seen if seen is not None else set()
        out = set()
        if op[0] not in ("cp", "mv"):
            return {("const", repr(op))}
        work = [op[1][0]] + [e[1] for e in op[1][1:] if e != "*" and e[0] == "i"]
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            if 1 <= l <= self.argc:
                out.add(("arg", l - 1))
            for d in self.defs.get(l, ()):
                if d[0] == "rv":
                    for o in operands(d[2]):
                        if o[0] in ("cp", "mv"):
                            work.append(o[1][0])
                            work += [e[1] for e in o[1][1:] if e != "*" and e[0] == "i"]
                        else:
                            out.add(("const", repr(o)))
                else:
                    self._call(d[2], out, work, stop)
            for c in self.muts.get(l, ()):
                self._call(c, out, work, stop)
        return out
    def _call(self, c, out, work, stop):
        out.add(("call", c))
        if stop and stop(c):
            return
        for a in c.args:
            if a[0] in ("cp", "mv"):
                work.append(a[1][0])
            else:
                out.add(("const", repr(a)))
        if c.ref is None and c.op[0] in ("cp", "mv"):
            work.append(c.op[1][0])

class World:
    def __init__(self, prog):
        self.p = prog
        self.views = {}
        self._callers = None
    def view(self, fn):
        v = self.views.get(fn.key)
        if v is None:
            v = self.views[fn.key] = View(self.p, fn)
        return v
    def fns(self, crates=None):
        for f in self.p.fns.values():
            if f.body and (crates is None or f.key.split("::")[0] in crates):
                yield f
    def targets(self, c):
        """local functions a call site may run (the generic one for unresolved trait methods: all its implementations)"""
        if c.ref is None:
            return []
        k = c.ref["k"]
        if k in self.p.fns and self.p.fns[k].body:
            return [self.p.fns[k]]
        if c.ref.get("tr"):
            name = k.split("::")[-1]
            out = []
            for im in self.p.impls:
                if im["trait"] == c.ref["tr"] and name in im["items"] and im["items"][name][1] in self.p.fns:
                    out.append(self.p.fns[im["items"][name][1]])
            return out
        return []
    def callers(self, fn):
        if self._callers is None:
            self._callers = {}
            for f in self.fns():
                for c in self.view(f).calls:
                    for t in self.targets(c):
                        self._callers.setdefault(t.key, []).append(c)
                # closures are called by whoever makes them
        return self._callers.get(fn.key, [])
    def closure_site(self, key):
        """(function, captured operands) where a closure is made"""
        for f in self.fns():
            for ss, t, loc, cl in f.body["bbs"]:
                for s in ss:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("clo", "cor") and s[2][1][1] == key:
                        return f, s[2][2], loc
        return None
    def origins(self, fn, op, stop=None, depth=4, seen=None):
        """value origins across callers: ('call',Call) ('const',..) ('param',fn,i)"""
        seen = seen if seen is not None else set()
        out = set()
        for o in self.view(fn).back(op, stop):
            if o[0] == "arg":
                k = (fn.key, o[1])
                if k in seen:
                    continue
                seen.add(k)
                cs = self.callers(fn) if depth else []
                if fn.kind == "closure" or "{closure" in fn.key.split("::")[-1]:
                    site = self.closure_site(fn.key)
                    if site:
                        for x in site[1]:
                            out |= self.origins(site[0], x, stop, depth - 1, seen)
                        continue
                if not cs:
                    out.add(("param", fn.key, o[1]))
                for c in cs:
                    if o[1] < len(c.args):
                        out |= self.origins(c.fn, c.args[o[1]], stop, depth - 1, seen)
            else:
                out.add(o)
        return out

def ty_mentions(prog, ty, pred, depth=6, seen=None):
    """does a type (structurally, through local structs) contain a type satisfying pred"""
    seen = seen if seen is not None else set()
    if pred(ty):
        return True
    if depth == 0 or not isinstance(ty, tuple):
        return False
    k = ty[0]
    if k == "adt":
        if any(ty_mentions(prog, x, pred, depth - 1, seen) for x in ty[2] if isinstance(x, tuple)):
            return True
        a = prog.adts.get(ty[1])
        if a and a.get("local") and ty[1] not in seen:
            seen.add(ty[1])
            return any(ty_mentions(prog, f[1], pred, depth - 1, seen) for v in a["variants"] for f in v[1])
        return False
    if k in ("ref", "ptr", "slice", "arr"):
        return ty_mentions(prog, ty[1], pred, depth - 1, seen)
    if k == "tup":
        return any(ty_mentions(prog, x, pred, depth - 1, seen) for x in ty[1])
    return False
