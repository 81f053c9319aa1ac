"""Abstract interpreter over MIR: values are normal-form terms, joins build gated values at postdominators,
loops are summarised by solving the recurrences of the locations they change.  Nothing is executed."""
from .evalt import EXTERNALS, OPAQUE_OK
import itertools
import re
from . import terms as t
from .terms import (T, mk, num, ZERO, ONE, TRUE, FALSE, UNIT, NONE, OPT, RES, CFLOW, ORD, add, sub, mul, neg, is_num, val, ite, eq, eq0,
                    ge0, nt, conj, disj, idx, length, lit, cat, upd, arr, gen, slc, field, setfield, agg, tup, some, ok, err, opt_parts,
                    res_parts, mk_opt, mk_res, subst, fresh_iv, fresh_phi, summ, power, inv)
from .prog import Cfg

class Unsupported(Exception):
    pass

class State:
    __slots__ = ("store", "ev", "facts")
    def __init__(self, store=None, ev=(), facts=frozenset()):
        self.store = store if store is not None else {}
        self.ev = ev
        self.facts = facts
    def copy(self):
        return State(dict(self.store), self.ev, self.facts)
    def emit(self, *e):
        self.ev = self.ev + (e,)

def has_err(evs):
    return any(e[0] == "fail" and e[2] == "err" or e[0] == "alt" and (has_err(e[2]) or has_err(e[3])) or e[0] == "loop" and has_err(e[3]) for e in evs)
def err_cond(evs):
    """when one of the errors among events happens"""
    cs = []
    for e in evs:
        if e[0] == "fail" and e[2] == "err":
            cs.append(e[1])
        elif e[0] == "alt":
            a, b = err_cond(e[2]), err_cond(e[3])
            cs.append(t.disj(t.conj(e[1], a), t.conj(nt(e[1]), b)))
        elif e[0] == "loop" and has_err(e[3]):
            cs.append(nt(t.forall(e[1], e[2], nt(err_cond(e[3])))))
    return t.disj(*cs) if cs else FALSE
def strip_err(evs):
    out = []
    for e in evs:
        if e[0] == "fail" and e[2] == "err":
            continue
        if e[0] == "alt":
            e = e[:2] + (strip_err(e[2]), strip_err(e[3])) + e[4:]
        elif e[0] == "loop":
            e = e[:3] + (strip_err(e[3]),) + e[4:]
        out.append(e)
    return tuple(out)
def to_panic(evs):
    out = []
    for e in evs:
        if e[0] == "fail" and e[2] == "err":
            e = e[:2] + ("panic", "unwrap") + e[4:]
        elif e[0] == "alt":
            e = e[:2] + (to_panic(e[2]), to_panic(e[3])) + e[4:]
        elif e[0] == "loop":
            e = e[:3] + (to_panic(e[3]),) + e[4:]
        out.append(e)
    return tuple(out)
_UNUSED = {}
def unused(body):
    """locals that are written and dropped, but never read"""
    k = id(body)
    if k not in _UNUSED:
        read = set()
        def walk(x, top=True):
            if isinstance(x, (tuple, list)):
                if len(x) == 2 and x[0] in ("cp", "mv") or x and x[0] in ("ref", "disc", "rawptr", "addr", "len", "use") and len(x) > 1:
                    y = x[1]
                    if isinstance(y, tuple) and y and isinstance(y[0], int):
                        read.add(y[0])
                for y in x:
                    walk(y)
        for stmts, term, loc, _ in body["bbs"]:
            for s in stmts:
                walk(s[2] if s[0] == "=" else s)
                if s[0] == "=" and len(s[1]) > 1:
                    read.add(s[1][0])
            if term[0] != "drop":
                walk(term)
        _UNUSED[k] = frozenset(i for i in range(body["argc"] + 1, len(body["tys"])) if i not in read), body
    return _UNUSED[k][0]

class Frame:
    __slots__ = ("fn", "body", "cfg", "fid", "g", "rest", "active", "loc")

_strip = re.compile(r"::<impl [^>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^>]*>")
def norm_path(p):
    out, d, i = [], 0, 0
    # drop every <...> group
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":").replace("r#", "")

class Interp:
    def __init__(self, prog, models=None, overrides=None):
        self.p = prog
        self.models = models if models is not None else {}
        self.ov = overrides or {}
        self.fids = itertools.count(1)
        self.cells = itertools.count(1)
        self.depth = 0
        self.notes = []          # unsupported constructs met (taint)
        self.stats = {"calls": 0, "inlined": set(), "loops": 0, "external": set()}
        self._cfgs = {}
        self.trace = False
        self.keep = set()        # frames whose cells survive
        self.seen = {}
        self.pending = {}        # results of inlined calls whose errors were taken to be passed on -> (events before, events of the call, facts before)

    # ------------------------------------------------------------ memory
    def new_cell(self, st, v, tag="c"):
        c = (tag, next(self.cells))
        st.store[c] = v
        return c
    def read_cell(self, st, c):
        v = st.store.get(c)
        if v is None:
            if c[0] == "g":
                v = self.ghost_default(c)
                st.store[c] = v
                return v
            raise Unsupported("read of uninitialised %s" % (c,))
        return v
    def ghost_default(self, c):
        return mk("g0", *[x for x in c[1:]])
    def proj(self, v, path, st=None):
        for e in path:
            if v.op == "mref":
                v = self.load(st, v)
            v = self.step(v, e)
        return v
    def step(self, v, e):
        k = e[0]
        if k == "f":
            return field(v, e[1], e[2])
        if k == "i":
            return idx(v, e[1])
        if k == "sl":
            return slc(v, e[1], e[2])
        if k == "dc":
            return self.dcast(v, e[1], e[2] if len(e) > 2 else None)
        if k == "view":
            return self.see(v, e[1], e[2])
        raise Unsupported("path %s" % (e,))
    def see(self, v, a, b):
        """value v of type a as one of type b; what was seen that way before comes back as it was"""
        r = self.seen.get((v, a, b))
        if r is None:
            r = self.seen[(v, a, b)] = self.conv(a, b)(v)
            self.seen[(r, b, a)] = v
        return r
    def dcast(self, v, variant, adt=None):
        if v.op == "ite":
            a, b = self.dcast(v.args[1], variant, adt), self.dcast(v.args[2], variant, adt)
            if a.op == "bot":
                return b
            if b.op == "bot":
                return a
            return ite(v.args[0], a, b)
        if v.op == "agg":
            return v if v.args[1] == variant else mk("bot")
        if adt == OPT:
            return some(mk("some", v)) if variant == 1 else NONE
        if adt == RES:
            return ok(mk("okv", v)) if variant == 0 else err(mk("errv", v))
        return mk("dc", v, variant)
    def load(self, st, r):
        if r.op == "mref":
            v = self.read_cell(st, r.args[0])
            for e in r.args[1]:
                if v.op == "mref":
                    v = self.load(st, v)
                v = self.step(v, e)
            return v
        if r.op == "ite":
            return ite(r.args[0], self.load(st, r.args[1]), self.load(st, r.args[2]))
        if r.op == "box":
            return r.args[0]
        return r
    def deref_all(self, st, r):
        n = 0
        while n < 20 and (r.op == "mref" or (r.op == "ite" and self._has_mref(r))):
            r = self.load(st, r)
            n += 1
        return r
    def deep_deref(self, st, v, d=0):
        if v.op == "mref":
            v = self.deref_all(st, v)
        if d < 8 and v.op == "agg":
            return agg(v.args[0], v.args[1], [self.deep_deref(st, x, d + 1) for x in v.args[2]])
        if d < 8 and v.op == "lit":
            return lit(*[self.deep_deref(st, x, d + 1) for x in v.args[0]])
        return v
    def _has_mref(self, r):
        if r.op == "mref":
            return True
        if r.op == "ite":
            return self._has_mref(r.args[1]) or self._has_mref(r.args[2])
        return False
    def store_to(self, st, r, v):
        if r.op == "mref":
            c, p = r.args
            st.store[c] = self.put(st, self.read_cell(st, c) if p else None, p, v)
        elif r.op == "ite":
            a, b = r.args[1], r.args[2]
            self.store_to(st, a, ite(r.args[0], v, self.load(st, a)))
            self.store_to(st, b, ite(r.args[0], self.load(st, b), v))
        else:
            raise Unsupported("store through %s" % r.op)
    def put(self, st, old, path, v):
        if not path:
            return v
        e, rest = path[0], path[1:]
        if old.op == "mref":
            self.store_to(st, mk("mref", old.args[0], old.args[1] + tuple(path)), v)
            return old
        k = e[0]
        if k == "f":
            if len(e) > 3:
                old = self.expand(old, e[3])
            return setfield(old, e[1], e[2], self.put(st, field(old, e[1], e[2]) if rest else None, rest, v))
        if k == "i":
            return upd(old, e[1], self.put(st, idx(old, e[1]) if rest else None, rest, v))
        if k == "sl":
            if rest:
                v = self.put(st, slc(old, e[1], e[2]), rest, v)
            return splice(old, e[1], e[2], v)
        if k == "view":
            if rest:
                v = self.put(st, self.step(old, e), rest, v)
            return self.see(v, e[2], e[1])
        if k == "dc":
            if old.op == "ite":
                c, a, b = old.args
                if a.op == "agg" and a.args[1] != e[1]:
                    return ite(c, a, self.put(st, b, path, v))
                if b.op == "agg" and b.args[1] != e[1]:
                    return ite(c, self.put(st, a, path, v), b)
            return self.put(st, self.dcast(old, e[1], e[2] if len(e) > 2 else None), rest, v)
        raise Unsupported("write path %s" % (e,))

    # ------------------------------------------------------------ places
    def place_ref(self, fr, st, p):
        """term designating a place: ('mref', cell, path) or ('val', term) when behind a shared reference"""
        cell, path = (fr.fid, p[0]), []
        cur_ty = None
        for j, e in enumerate(p[1:]):
            if e == "*":
                v = self.proj(self.read_cell(st, cell), path, st)
                if v.op == "mref":
                    cell, path = v.args[0], list(v.args[1])
                elif v.op == "ite" and self._has_mref(v):
                    return self.ref_proj(fr, st, v, p[2 + j:], p[:2 + j])
                else:
                    return ("val", self.val_proj(fr, st, v, p[2 + j:], p[:2 + j]))
            elif cell[0] == "box" and e[0] == "f" and e[2] == "value":
                pass        # MaybeUninit / ManuallyDrop wrappers of a fresh box
            else:
                self.push_elem(fr, st, path, e, p[:1 + j])
        return ("mref", cell, tuple(path))
    def ref_proj(self, fr, st, v, rest, prefix):
        for j, e in enumerate(rest):
            if e == "*":
                v = self.load(st, v)
                if not self._has_mref(v):
                    return ("val", self.val_proj(fr, st, v, rest[j + 1:], prefix + tuple(rest[:j + 1])))
            else:
                q = []
                self.push_elem(fr, st, q, e, prefix + tuple(rest[:j]))
                v = map_ref(v, tuple(q))
        return ("ref", v)
    def push_elem(self, fr, st, path, e, prefix=None):
        k = e[0]
        if k == "f":
            key = self.raw_adt(fr, prefix) if prefix else None
            path.append(("f", e[1], e[2], key) if key else ("f", e[1], e[2]))
        elif k == "i":
            i = self.read_cell(st, (fr.fid, e[1]))
            path[:] = t.path_cat(tuple(path), (("i", i),))
        elif k == "ci":
            off, mn_, fe = e[1], e[2], e[3]
            if fe:
                base = self.deref_all(st, self.read_cell(st, (fr.fid, prefix[0]))) if False else None
                v = self.read_place(fr, st, prefix)
                i = sub(length(v), num(off))
            else:
                i = num(off)
            path[:] = t.path_cat(tuple(path), (("i", i),))
        elif k == "ss":
            v = self.read_place(fr, st, prefix)
            hi = sub(length(v), num(e[2])) if e[3] else num(e[2])
            path[:] = t.path_cat(tuple(path), (("sl", num(e[1]), hi),))
        elif k == "d":
            ty = self.place_ty(fr, prefix) if prefix else None
            path.append(("dc", e[1], ty[1] if ty and ty[0] == "adt" else None))
        else:
            raise Unsupported("place elem %s" % (e,))
    def raw_adt(self, fr, p):
        """key of the local struct a place has as its type, without substituting generics"""
        ty = fr.body["tys"][p[0]]
        for e in p[1:]:
            if e == "*":
                ty = ty[1] if ty[0] in ("ref", "ptr") else ("?",)
            elif e[0] == "f":
                ty = e[3]
            elif e[0] in ("i", "ci"):
                ty = ty[1] if ty[0] in ("arr", "slice") else ("?",)
            else:
                return None
        if ty[0] == "adt":
            a = self.p.adts.get(ty[1])
            if a and a.get("local") and a["kind"] == "struct":
                return ty[1]
        return None
    def expand(self, v, key):
        """an opaque struct as the record of its fields"""
        if v.op in ("agg", "mref", "uninit"):
            return v
        if v.op == "ite":
            return ite(v.args[0], self.expand(v.args[1], key), self.expand(v.args[2], key))
        return agg(key, 0, [field(v, i, f[0]) for i, f in enumerate(self.p.adts[key]["variants"][0][1])])
    def val_proj(self, fr, st, v, rest, prefix):
        for j, e in enumerate(rest):
            if e == "*":
                if v.op == "mref" or self._has_mref(v):
                    v = self.load(st, v)
                continue
            q = []
            if e[0] in ("ci", "ss") and e[3]:
                off = e
                if e[0] == "ci":
                    q = [("i", sub(length(v), num(e[1])))]
                else:
                    q = [("sl", num(e[1]), sub(length(v), num(e[2])))]
            else:
                self.push_elem(fr, st, q, e, prefix + tuple(rest[:j]))
            if v.op == "mref":
                v = self.load(st, v)
            v = self.step(v, q[0])
        return v
    def read_place(self, fr, st, p):
        r = self.place_ref(fr, st, p)
        if r[0] == "val":
            return r[1]
        if r[0] == "ref":
            return self.load(st, r[1])
        v = self.read_cell(st, r[1])
        for e in r[2]:
            if v.op == "mref":
                v = self.load(st, v)
            v = self.step(v, e)
        return v
    def write_place(self, fr, st, p, v):
        if len(p) == 1:
            st.store[(fr.fid, p[0])] = v
            return
        r = self.place_ref(fr, st, p)
        if r[0] == "val":
            raise Unsupported("write behind shared ref in %s" % fr.fn.key)
        if r[0] == "ref":
            self.store_to(st, r[1], v)
            return
        if r[1] not in st.store and r[2] and r[1][0] != "g":
            ty = fr.body["tys"][p[0]]
            st.store[r[1]] = mk("uninit")
        self.store_to(st, mk("mref", r[1], r[2]), v)
    def place_ty(self, fr, p):
        ty = fr.body["tys"][p[0]]
        for e in p[1:]:
            if e == "*":
                ty = ty[1] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else ty)
            elif e[0] == "f":
                ty = e[3]
            elif e[0] in ("i", "ci"):
                ty = self.p.tsubst(ty, fr.g)
                ty = ty[1] if ty[0] in ("arr", "slice") else ("?",)
        return self.p.tsubst(ty, fr.g)

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(fr, st, o[1])
        if k == "int":
            if o[2] == ("p", "bool"):
                return TRUE if o[1] else FALSE
            return num(int(o[1]))
        if k == "str":
            return mk("str", o[1])
        if k == "zst":
            ty = self.p.tsubst(o[1], fr.g)
            if ty == ("tup", ()):
                return UNIT
            if ty[0] == "fn":
                return mk("fnv", ty[1], ty[2])
            if ty[0] == "clo":
                return mk("clo", ty[1], ty[2], ())
            if ty[0] == "adt" and len(self.p.adts.get(ty[1], {"variants": [0, 0]})["variants"]) == 1:
                return agg(ty[1], 0, [UNIT for _ in self.p.adts[ty[1]]["variants"][0][1]])
            return mk("zst", tystr(ty))
        if k == "fn":
            r = o[1]
            a = tuple(self.p.tsubst(x, fr.g) for x in r["a"])
            return mk("fnv", r["k"], a, r["p"], r.get("tr"), r.get("ctor") if not isinstance(r.get("ctor"), list) else tuple(r["ctor"]))
        if k == "const":
            if o[2] is not None and not isinstance(o[2], (list, dict, str)):
                if o[3] == ("p", "bool"):
                    return TRUE if o[2] else FALSE
                return num(int(o[2]))
            return self.const(fr, st, o[1])
        if k == "prom":
            f = self.p.fns.get(o[1])
            if f is None or o[2] >= len(f.proms):
                return mk("sym", "prom:%s:%s" % (o[1], o[2]))
            g = tuple(self.p.tsubst(x, fr.g) for x in o[3])
            return self.eval_body(st, f, f.proms[o[2]], g)
        if k == "cparam":
            g = fr.g[o[1]] if o[1] < len(fr.g) else None
            if g and g[0] == "const":
                try:
                    return num(int(g[1]))
                except ValueError:
                    pass
            return t.sym("const " + o[2])
        if k == "c?":
            return mk("sym", "c:" + str(o[1]))
        raise Unsupported("operand %s" % (o,))
    def const(self, fr, st, r):
        f, g, a = self.p.resolve(r, fr.g)
        if f is not None and f.body:
            return self.eval_body(st, f, f.body, g)
        m = self.models.get("const:" + short(r["p"]))
        if m:
            return m(self, fr, st, a)
        return mk("app", "const:" + short(r["p"]), tuple(tystr(x) for x in a if x[0] != "'"))
    def eval_body(self, st, f, body, g):
        s2 = State(dict(st.store), (), st.facts)
        fr = self.frame(f, body, g)
        outs = self.run(fr, 0, s2, frozenset())
        outs = [o for o in outs if o[0] == "ret"]
        if not outs:
            raise Unsupported("const body")
        s = self.merge_outs(outs)[0][2]
        v = s.store[(fr.fid, 0)]
        v = self.deref_all(s, v) if v.op == "mref" else v
        return v

    def is_bool(self, fr, o):
        if o[0] == "int":
            return o[2] == ("p", "bool")
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1]) == ("p", "bool")
        if o[0] == "const":
            return o[3] == ("p", "bool")
        return False

    def rvalue(self, fr, st, r, dest=None):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            p = r[1]
            if not r[2]:
                # shared: the value itself, but keep references to closures' mutable captures as they are
                return self.read_place(fr, st, p)
            q = self.place_ref(fr, st, p)
            if q[0] == "val":
                return q[1]
            if q[0] == "ref":
                return q[1]
            if not q[2] and q[1] not in st.store:
                st.store[q[1]] = mk("uninit")
            return mk("mref", q[1], q[2])
        if k in ("rawref", "addr"):
            q = self.place_ref(fr, st, r[1])
            return q[1] if q[0] in ("val", "ref") else mk("mref", q[1], q[2])
        if k == "agg":
            h = r[1]
            fs = [self.operand(fr, st, x) for x in r[2]]
            if h[0] == "adt":
                if h[4] is not None:  # union / active field
                    return agg(h[1], h[2], fs)
                return agg(h[1], h[2], fs)
            if h[0] == "tup":
                return tup(*fs)
            if h[0] == "arr":
                return lit(*fs)
            if h[0] in ("clo", "cor"):
                g = tuple(self.p.tsubst(x, fr.g) for x in h[2])
                return mk(h[0], h[1], g, tuple(fs))
            return mk("agg", h[0], 0, tuple(fs))
        if k == "rep":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if isinstance(n, str) and n.startswith("#"):
                i = int(n[1:].split(":")[0])
                g = fr.g[i] if i < len(fr.g) else None
                if g and g[0] == "const" and str(g[1]).lstrip("-").isdigit():
                    nn = num(int(g[1]))
                else:
                    nn = t.sym("const " + n.split(":")[-1]) if not fr.fn.gen[i:i+1] else t.sym("const " + fr.fn.gen[i].lstrip("#"))
            else:
                nn = num(int(n)) if str(n).isdigit() else t.sym("const " + str(n))
            return rep(nn, v)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, self.is_bool(fr, r[2]))
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if self.is_bool(fr, r[2]):
                    return nt(a)
                return mk("app", "bitnot", a)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return length(self.deref_all(st, a))
            return mk("app", r[1], a)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            if r[1] in ("IntToFloat", "FloatToInt", "FloatToFloat"):
                return mk("app", r[1], v)
            if r[1].startswith("IntToInt") and self.is_bool(fr, r[2]):
                return ite(v, ONE, ZERO)
            if r[1].startswith("Transmute"):
                return self.transmute(v, self.place_ty(fr, r[2][1]) if r[2][0] in ("cp", "mv") else None, self.p.tsubst(r[3], fr.g))
            if r[1].startswith("PtrToPtr") and r[2][0] in ("cp", "mv") and v.op == "mref":
                a, b = self.place_ty(fr, r[2][1]), self.p.tsubst(r[3], fr.g)
                if a[0] in ("ptr", "ref") and b[0] == "ptr" and a[1] != b[1] and a[1][0] in ("slice", "arr") and b[1][0] in ("slice", "arr") and a[1][1] != b[1][1]:
                    # the same memory seen as elements of another type with the same representation
                    if not (self.conv(a[1], b[1]) and self.conv(b[1], a[1])):
                        raise Unsupported("mutable view of %s" % (a[1],))
                    return mk("mref", v.args[0], v.args[1] + (("view", a[1], b[1]),))
                return v
            if r[1].startswith("PtrToPtr") and r[2][0] in ("cp", "mv") and v.op != "mref":
                a, b = self.place_ty(fr, r[2][1]), self.p.tsubst(r[3], fr.g)
                if a[0] in ("ptr", "ref") and b[0] == "ptr" and a[1] != b[1]:
                    if a[1][0] in ("slice", "arr"):
                        f = self.conv(a[1], b[1])
                        return f(v) if f else v
                    f = self.conv(a[1], b[1])
                    if f and v.op not in ("agg", "box"):
                        return mapseq(v, f)
            return v
        if k == "disc":
            ty = self.place_ty(fr, r[1])
            v = self.read_place(fr, st, r[1])
            if self.pend(st, v):
                v = self.unabsorb(st, v)
                self.write_place(fr, st, r[1], v)
            return self.disc(v, ty)
        raise Unsupported("rvalue %s" % k)

    def disc(self, v, ty):
        if v.op == "agg":
            if v.args[0] == t.ORD:
                # Less is -1, read as an unsigned byte
                return num((255, 0, 1)[v.args[1]])
            return num(v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.disc(v.args[1], ty), self.disc(v.args[2], ty))
        if ty[0] == "adt" and ty[1] == OPT:
            return mk("ite", mk("issome", v), ONE, ZERO)
        if ty[0] == "adt" and ty[1] == RES:
            return mk("ite", mk("isok", v), ZERO, ONE)
        if v.op == "mref":
            raise Unsupported("discriminant of a reference")
        return mk("disc", v)

    def binop(self, op, a, b, boolean=False):
        if op.endswith("WithOverflow"):
            return tup(self.binop(op[:-12], a, b), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return t.idiv(a, b)
        if op == "Rem":
            return t.irem(a, b)
        if op == "Eq":
            if boolean:
                return ite(a, b, nt(b))
            return eqv(a, b)
        if op == "Ne":
            if boolean:
                return ite(a, nt(b), b)
            return nt(eqv(a, b))
        if op == "Lt":
            return t.lt(a, b)
        if op == "Le":
            return t.le(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "Ge":
            return t.le(b, a)
        if op == "BitAnd":
            return conj(a, b) if boolean else t.bitand(a, b)
        if op == "BitOr":
            return disj(a, b) if boolean else mk("app", "bitor", *sorted((a, b), key=lambda x: x.uid))
        if op == "BitXor":
            return ite(a, nt(b), b) if boolean else t.xor(a, b)
        if op == "Shl":
            return mul(a, power(num(2), b))
        if op == "Shr":
            return t.idiv(a, power(num(2), b))
        return mk("app", op, a, b)

    def transmute(self, v, a, b):
        """between Vec<W<X>> / [W<X>] and Vec<X> / [X] for transparent single-field wrappers"""
        if a is None or b is None or v.op == "mref":
            return v
        f = self.conv(a, b)
        return f(v) if f else mk("app", "transmute", v)
    def conv(self, a, b):
        """function turning a value of type a into one of type b with the same representation"""
        if a == b:
            return lambda v: v
        def wrap(x, y):
            ad = self.p.adts.get(y[1]) if y[0] == "adt" else None
            if ad and ad["kind"] == "struct" and len(ad["variants"]) == 1:
                fs = [(i, self.p.tsubst(f[1], y[2])) for i, f in enumerate(ad["variants"][0][1])]
                fs = [(i, ty) for i, ty in fs if not (ty[0] == "adt" and ty[1].endswith("PhantomData"))]
                if len(fs) == 1 and len(ad["variants"][0][1]) == 1:
                    return self.conv(x, fs[0][1])
            return None
        for x in ("ref", "ptr"):
            if a[0] in ("ref", "ptr") and b[0] in ("ref", "ptr"):
                return self.conv(a[1], b[1])
        if a[0] in ("slice", "arr") and b[0] in ("slice", "arr"):
            f = self.conv(a[1], b[1])
            return (lambda v: mapseq(v, f)) if f else None
        if a[0] == b[0] == "adt" and a[1] == b[1] and a[2] and b[2]:
            f = self.conv(a[2][0], b[2][0])
            if f and a[1].endswith("::Vec"):
                return lambda v: mapseq(v, f)
            if f and ("ManuallyDrop" in a[1] or "MaybeUninit" in a[1] or "Box" in a[1]):
                return f
        g = wrap(a, b)
        if g:
            return lambda v: agg(b[1], 0, (g(v),))
        g = wrap(b, a)
        if g:
            h = self.conv(a, b)if False else None
            inner = self.p.tsubst(self.p.adts[a[1]]["variants"][0][1][0][1], a[2])
            k = self.conv(inner, b)
            nm = self.p.adts[a[1]]["variants"][0][1][0][0]
            return (lambda v: k(field(v, 0, nm))) if k else None
        return None

    # ------------------------------------------------------------ control flow
    def frame(self, fn, body, g):
        fr = Frame()
        fr.fn, fr.body, fr.g = fn, body, g
        c = self._cfgs.get(id(body))
        if c is None:
            c = self._cfgs[id(body)] = Cfg(body)
        fr.cfg, fr.fid, fr.active = c, next(self.fids), set()
        r = self.p.tsubst(body["tys"][0], g)
        fr.rest = r
        fr.loc = None
        return fr

    def simp(self, c, facts):
        if c.op == "bool" or not facts:
            return c
        if c in facts:
            return TRUE
        n = nt(c)
        if n in facts:
            return FALSE
        if c.op == "and":
            return conj(*[self.simp(x, facts) for x in c.args[0]])
        if c.op == "or":
            return disj(*[self.simp(x, facts) for x in c.args[0]])
        if c.op == "ite":
            return ite(self.simp(c.args[0], facts), self.simp(c.args[1], facts), self.simp(c.args[2], facts))
        if c.op == "ge0":
            for f in facts:
                if f.op == "ge0":
                    d = sub(c.args[0], f.args[0])
                    if ge0(d) is TRUE:
                        return TRUE
                    d = sub(neg(f.args[0]), add(c.args[0], ONE))
                    # c < 0 follows from  -f - 1 >= c
                    if ge0(sub(sub(neg(c.args[0]), ONE), f.args[0])) is TRUE:
                        return FALSE
        return c
    def assume(self, st, c):
        if c is TRUE:
            return
        cs = c.args[0] if c.op == "and" else (c,)
        st.facts = st.facts | frozenset(cs)

    def is_err(self, fr, st):
        if fr.rest[0] == "adt" and fr.rest[1] == RES:
            v = st.store.get((fr.fid, 0))
            return v is not None and v.op == "agg" and v.args[0] == RES and v.args[1] == 1
        return False

    def run(self, fr, b, st, stops, first=False):
        """abstractly execute from block b; -> [(stop block | 'ret' | 'dead', condition, state)]"""
        outs = []
        cond = TRUE
        bbs = fr.body["bbs"]
        while True:
            if b in stops and not first:
                outs.append((b, cond, st))
                return outs
            if b in fr.cfg.headers and not first:
                res = self.cfg_loop(fr, b, st, stops)
                nxt = self.join_after(fr, b, res, stops)
                outs.extend((s, conj(cond, c), x) for s, c, x in nxt if s != "cont")
                cont = [o for o in nxt if o[0] == "cont"]
                if not cont:
                    return outs
                _, c, (b, st) = cont[0]
                cond = conj(cond, c)
                continue
            first = False
            stmts, term, loc, _ = bbs[b]
            for s in stmts:
                if s[0] == "=":
                    fr.loc = s[3]
                    v = self.rvalue(fr, st, s[2], s[1])
                    self.write_place(fr, st, s[1], v)
                elif s[0] == "setd":
                    raise Unsupported("set discriminant")
            fr.loc = loc
            k = term[0]
            if k == "goto":
                b = term[1]
            elif k == "drop":
                if len(term[1]) == 1 and self.pending and term[1][0] in unused(fr.body):
                    v = st.store.get((fr.fid, term[1][0]))
                    if v is not None and self.pend(st, v):
                        self.unabsorb(st, v)
                b = term[2]
            elif k == "ret":
                outs.append(("ret", cond, st))
                return outs
            elif k in ("unreach", "unwind"):
                outs.append(("dead", cond, st))
                return outs
            elif k == "assert":
                c = self.operand(fr, st, term[1])
                if not term[2]:
                    c = nt(c)
                c = self.simp(c, st.facts)
                if c is not TRUE:
                    st.emit("fail", nt(c), "panic", term[3], (), loc)
                    if c is FALSE:
                        outs.append(("dead", cond, st))
                        return outs
                    self.assume(st, c)
                b = term[4]
            elif k == "call":
                v = self.call_op(fr, st, term[1], [self.operand(fr, st, x) for x in term[2]], term, loc)
                if v is None or term[4] is None:
                    if v is not None:
                        st.emit("fail", TRUE, "panic", "diverges", (), loc)
                    outs.append(("dead", cond, st))
                    return outs
                self.write_place(fr, st, term[3], v)
                b = term[4]
            elif k == "switch":
                nxt = self.switch(fr, b, st, term, stops, loc)
                outs.extend((s, conj(cond, c), x) for s, c, x in nxt if s != "cont")
                cont = [o for o in nxt if o[0] == "cont"]
                if not cont:
                    return outs
                _, c, (b, st) = cont[0]
                cond = conj(cond, c)
            elif k == "yield":
                raise Unsupported("yield")
            else:
                raise Unsupported("terminator %s" % k)

    def switch(self, fr, b, st, term, stops, loc):
        d = self.operand(fr, st, term[1])
        boolean = self.is_bool(fr, term[1])
        br, rest = [], TRUE
        for v, tgt in term[2]:
            c = self.simp(eq_const(d, int(v), boolean), st.facts)
            c = conj(rest, c) if len(term[2]) > 1 else c
            br.append((c, tgt))
            rest = conj(rest, nt(c))
        if term[3] is not None and not (fr.body["bbs"][term[3]][1][0] == "unreach" and not fr.body["bbs"][term[3]][0]):
            br.append((self.simp(rest, st.facts), term[3]))
        elif len(br) > 1:
            # exhaustive: the last arm is what remains
            r2 = TRUE
            for c, _ in br[:-1]:
                r2 = conj(r2, nt(c))
            br[-1] = (self.simp(r2, st.facts), br[-1][1])
        br = [(c, x) for c, x in br if c is not FALSE]
        if len(br) == 1 or (br and br[0][0] is TRUE):
            return [("cont", TRUE, (br[0][1], st))]
        byt = {}
        for c, x in br:
            byt[x] = disj(byt[x], c) if x in byt else c
        if len(byt) == 1:
            return [("cont", TRUE, (br[0][1], st))]
        j = fr.cfg.pdom.get(b)
        if j is not None and j < 0:
            j = None
        inner = stops | {j} if j is not None else stops
        pre = st.ev
        got = []
        for tgt, c in byt.items():
            s2 = State(dict(st.store), (), st.facts)
            self.assume(s2, c)
            for o, c2, s3 in self.run(fr, tgt, s2, frozenset() if tgt in fr.cfg.cold else inner):
                got.append((o, conj(c, c2), s3))
        return self.gather(fr, got, pre, j, stops, loc)

    def gather(self, fr, got, pre, j, stops, loc):
        live, fails = [], []
        for o, c, s in got:
            if o == "dead":
                fails.append(self.fail_event(c, s, "panic", None, loc))
            elif self.is_err(fr, s):
                v = s.store[(fr.fid, 0)].args[2][0]
                fails.append(self.fail_event(c, s, "err", v, loc))
            else:
                live.append((o, c, s))
        if not live:
            s = got[0][2]
            ev = pre + tuple(fails)
            st = State(dict(s.store), ev, frozenset())
            st.store.pop((fr.fid, 0), None)
            return [("dead", TRUE, st)]
        merged = self.merge_outs(live)
        res = []
        for o, c, s in merged:
            s.ev = pre + tuple(fails) + s.ev
            if len(merged) == 1:
                c = TRUE
            res.append((o, c, s))
        outl = []
        for o, c, s in res:
            if o == j and o not in stops and j is not None:
                outl.append(("cont", c, (o, s)))
            else:
                outl.append((o, c, s))
        return outl
    def fail_event(self, c, s, kind, detail, loc):
        # a branch that fails: its own events are kept inside
        sub_ = s.ev
        if sub_ and sub_[-1][0] == "fail" and sub_[-1][1] is TRUE:
            last = sub_[-1]
            return ("fail", c, last[2], last[3], sub_[:-1] + tuple(last[4]), last[5])
        return ("fail", c, kind, detail, sub_, loc)

    def merge_outs(self, outs):
        by = {}
        for o, c, s in outs:
            by.setdefault(o, []).append((c, s))
        res = []
        for o, l in by.items():
            c, s = l[0]
            for c2, s2 in l[1:]:
                s = self.merge(c, s, c2, s2)
                c = disj(c, c2)
            res.append((o, c, s))
        return res
    def merge(self, c1, a, c2, b):
        if a is b:
            return a
        # gate on the simpler condition
        c = c1
        store = {}
        for k, va in a.store.items():
            vb = b.store.get(k)
            if vb is None:
                if k[0] == "g":
                    vb = self.ghost_default(k)
                else:
                    store[k] = va      # initialised on one side only: dead or moved elsewhere
                    continue
            if va is vb:
                store[k] = va
            else:
                store[k] = gate(c, va, vb)
        for k, vb in b.store.items():
            if k not in a.store:
                store[k] = gate(c, self.ghost_default(k), vb) if k[0] == "g" else vb
        n = 0
        while n < len(a.ev) and n < len(b.ev) and a.ev[n] == b.ev[n]:
            n += 1
        ev = a.ev[:n]
        if a.ev[n:] or b.ev[n:]:
            ev = ev + (("alt", c, a.ev[n:], b.ev[n:]),)
        facts = a.facts & b.facts
        return State(store, ev, facts)

    def join_after(self, fr, h, res, stops):
        """continue from the exits of the loop headed by h to a common join"""
        body = fr.cfg.loop[h]
        targets = {o for o, _, _ in res if o not in ("ret", "dead")}
        free = [o for o in res if o[0] not in ("ret", "dead") and o[0] not in stops]
        if len({o[0] for o in free}) <= 1 and len(res) == len(free):
            m = self.merge_outs(free)
            return [("cont", TRUE if len(m) == 1 else c, (o, s)) for o, c, s in m]
        j = fr.cfg.pdom.get(h)
        while j is not None and j >= 0 and j in body:
            j = fr.cfg.pdom.get(j)
        if j is not None and j < 0:
            j = None
        inner = stops | {j} if j is not None else stops
        got = []
        pre = None
        for o, c, s in res:
            if o in ("ret", "dead") or o in inner:
                got.append((o, c, s))
                continue
            for o2, c2, s2 in self.run(fr, o, s, inner):
                got.append((o2, conj(c, c2), s2))
        # common event prefix
        return self.gather(fr, got, (), j, stops, fr.loc)

    # ------------------------------------------------------------ loops
    def cfg_loop(self, fr, h, st, stops):
        body = fr.cfg.loop[h]
        outside = {x for b in body for x in fr.cfg.succ[b] if x not in body}
        inner = frozenset({h} | outside | stops)
        def it(s, iv):
            outs = self.run(fr, h, s, inner, first=True)
            cont, exits, fails = [], [], []
            outs2 = []
            for o, c, x in outs:
                if o in fr.cfg.cold and o not in ("ret", "dead"):
                    outs2.extend((o2, conj(c, c2), x2) for o2, c2, x2 in self.run(fr, o, x, frozenset()))
                else:
                    outs2.append((o, c, x))
            for o, c, x in outs2:
                if o == h:
                    cont.append((c, x))
                elif o == "dead":
                    fails.append(self.fail_event(c, x, "panic", None, fr.loc))
                elif self.is_err(fr, x):
                    fails.append(self.fail_event(c, x, "err", x.store[(fr.fid, 0)].args[2][0], fr.loc))
                else:
                    exits.append((o, c, x))
            cs, cc = None, FALSE
            for c, x in cont:
                cs = x if cs is None else self.merge(cc, cs, c, x)
                cc = disj(cc, c)
            if fails:
                if cs is not None:
                    cs.ev = tuple(fails) + cs.ev
                for e in exits:
                    e[2].ev = tuple(fails) + e[2].ev
            return cs, exits
        return self.summarise(st, it)

    def summarise(self, st, body, trip=None):
        """body(state, iv) -> (continuing state, exits).  -> [(stop, cond, state)] after the loop;
        with trip given: (state, at) where at(term, n) closes a term over the iterations."""
        self.stats["loops"] += 1
        skel = {}
        own = set()
        pre_ev = st.ev
        for attempt in range(12):
            iv = fresh_iv()
            s0 = State(dict(st.store), (), st.facts)
            for c, v in skel.items():
                s0.store[c] = v
            if trip is not None:
                self.assume(s0, ge0(iv))
                self.assume(s0, ge0(sub(sub(trip, iv), ONE)))
            cont, exits = body(s0, iv)
            if cont is None:
                # body never continues: executes at most once
                outs = []
                for o, c, s in exits:
                    s.ev = pre_ev + s.ev
                    outs.append((o, c, s))
                if trip is not None:
                    raise Unsupported("loop body never completes")
                if not outs:
                    s = st.copy()
                    outs = [("dead", TRUE, s)]
                elif len(outs) == 1:
                    outs = [(outs[0][0], TRUE, outs[0][2])]
                return [(o, c, subst_state(s, {iv: ZERO})) if iv_in(s, iv) else (o, c, s) for o, c, s in outs]
            changed = False
            for c, v1 in cont.store.items():
                if c not in st.store:
                    if c[0] == "g":
                        st.store[c] = self.ghost_default(c)
                    else:
                        continue
                before = skel.get(c, st.store[c])
                if c not in s0.store:
                    s0.store[c] = st.store[c]
                if v1 is not before:
                    ns = widen(before, v1, own)
                    if ns is not before:
                        skel[c] = ns
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop does not stabilise")
        phis = {}
        for c, v in skel.items():
            collect_phis(v, st.store[c], cont.store.get(c, v), phis, own)
        sol = solve(phis, iv)
        # values at iteration iv
        at = {p: f(iv) for p, f in sol.items()}
        pre = {p: x0 for p, (x0, s_) in phis.items()}
        econds = [(o, subst(c, at), s) for o, c, s in exits]
        if trip is not None:
            n = trip
        else:
            E = disj(*[c for _, c, _ in econds]) if econds else FALSE
            n = self.trip_count(E, iv, st.facts)
        evs = subst_ev(cont.ev, at)
        def close(term, m):
            mm = {p: f(m) for p, f in sol.items()}
            mm[iv] = m
            return subst(term, mm)
        after = {p: f(n) for p, f in sol.items()}
        fin = State(dict(st.store), pre_ev, st.facts)
        for c, v in skel.items():
            fin.store[c] = subst(v, after)
        if evs:
            fin.emit("loop", n, iv, evs)
        if trip is not None:
            return fin, at, iv
        outs = []
        am = dict(after)
        am[iv] = n
        memo = {}
        for (o, c, s) in exits:
            s2 = State({}, fin.ev + subst_ev(s.ev, am), st.facts)
            for k, v in s.store.items():
                s2.store[k] = subst(v, am, memo) if v.fv else v
            cc = subst(c, am) if len(exits) > 1 else TRUE
            outs.append((o, cc, s2))
        if not outs:
            outs.append(("dead", TRUE, fin))
        if len(outs) > 1:
            rest = FALSE
            outs2 = []
            for o, c, s in outs[:-1]:
                outs2.append((o, c, s))
                rest = disj(rest, c)
            outs2.append((outs[-1][0], nt(rest), outs[-1][2]))
            outs = outs2
        return outs

    def trip_count(self, E, iv, facts=frozenset()):
        if E is TRUE:
            return ZERO
        if E is FALSE:
            return t.INF
        parts = E.args[0] if E.op == "or" else (E,)
        n0, others = None, []
        for p in parts:
            n = linear_bound(p, iv)
            if n is not None:
                n0 = n if n0 is None else t.mn(n0, n)
            else:
                others.append(p)
        if not others:
            return n0
        return t.mk_first(n0 if n0 is not None else t.INF, iv, disj(*others))

    # ------------------------------------------------------------ calls
    def call_op(self, fr, st, f, args, term, loc):
        if f[0] == "fn":
            return self.call_ref(fr, st, f[1], args, loc)
        v = self.operand(fr, st, f)
        return self.call_val(fr, st, v, args, loc)

    def call_ref(self, fr, st, r, args, loc):
        p = short(r["p"])
        self.stats["calls"] += 1
        ovr = self.ov.get(r["k"]) or self.ov.get(p)
        if ovr:
            a = tuple(self.p.tsubst(x, fr.g) for x in r["a"])
            x = ovr(self, fr, st, a, args, loc)
            if x is not NotImplemented:
                return x
        f, g, a = self.p.resolve(r, fr.g)
        if f is not None and f.key != r["k"]:
            ovr = self.ov.get(f.key)
            if ovr:
                x = ovr(self, fr, st, a, args, loc)
                if x is not NotImplemented:
                    return x
        m = self.models.get(p)
        if m is not None and (f is None or getattr(m, "force", False)):
            x = m(self, fr, st, a, args, loc)
            if x is not NotImplemented:
                return x
        if f is not None and f.body is not None:
            return self.inline(st, f, g, args, loc)
        if r.get("ctor") is not None:
            return self.ctor(r, args)
        # closures / fn pointers called through Fn traits
        if p in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            return self.call_val(fr, st, args[0], list(self.deref_all(st, args[1]).args[2]) if args[1].op == "agg" else [args[1]], loc)
        return self.opaque(fr, st, p, a, args, loc, r)

    def ctor(self, r, args):
        c = r["ctor"]
        if isinstance(c, (list, tuple)):
            return agg(c[0], c[1], args)
        return agg(r["k"], 0, args)

    def opaque(self, fr, st, p, a, args, loc, r=None):
        self.stats["external"].add(p)
        if p not in OPAQUE_OK:
            EXTERNALS.add(p)
        vals = []
        muts = []
        for x in args:
            if x.op == "mref":
                v = self.load(st, x)
                muts.append((len(vals), x))
                v = self.deref_all(st, v)
                vals.append(v)
            else:
                vals.append(x)
        vals = [self.reify(st, v) for v in vals]
        ts = ()
        if not vals:
            ts = (tuple(tystr(x) for x in a if x[0] != "'"),)
        v = mk("app", p, *ts, *vals)
        for k, x in muts:
            self.store_to(st, x, mk("app", p + "!%d" % k, *ts, *vals))
        return v
    def reify(self, st, v):
        """strip closures' identity from opaque arguments"""
        return v

    def call_val(self, fr, st, f, args, loc):
        """call a closure / function value"""
        if f.op == "mref":
            v = self.load(st, f)
            if v.op == "clo":
                return self.call_clo(fr, st, v, f, args, loc)
            return self.call_val(fr, st, v, args, loc)
        if f.op == "clo":
            return self.call_clo(fr, st, f, None, args, loc)
        if f.op == "fnv":
            r = {"k": f.args[0], "a": f.args[1], "p": f.args[2] if len(f.args) > 2 else f.args[0], "tr": f.args[3] if len(f.args) > 3 else None,
                 "ctor": f.args[4] if len(f.args) > 4 else None}
            fr2 = Frame()
            fr2.g, fr2.fn, fr2.body, fr2.fid, fr2.loc = (), fr.fn if fr else None, None, None, loc
            return self.call_ref(fr2, st, r, args, loc)
        if f.op == "ite":
            s1, s2 = State(dict(st.store), (), st.facts), State(dict(st.store), (), st.facts)
            a = self.call_val(fr, s1, f.args[1], args, loc)
            b = self.call_val(fr, s2, f.args[2], args, loc)
            m = self.merge(f.args[0], s1, nt(f.args[0]), s2)
            st.store, st.ev = m.store, st.ev + m.ev
            return ite(f.args[0], a, b)
        return mk("app", "call", f, *args)

    def call_clo(self, fr, st, v, ref, args, loc):
        fn = self.p.fns.get(v.args[0])
        if fn is None or fn.body is None:
            raise Unsupported("closure %s" % v.args[0])
        self_ty = fn.body["tys"][1] if fn.body["argc"] >= 1 else None
        cell = None
        if self_ty and self_ty[0] == "ref" and self_ty[2]:
            if ref is None:
                cell = self.new_cell(st, v)
                me = mk("mref", cell, ())
            else:
                me = ref
        else:
            me = v
        return self.inline(st, fn, v.args[1], [me] + list(args), loc)

    def inline(self, st, f, g, args, loc):
        ovr = self.ov.get(f.key)
        if ovr:
            x = ovr(self, None, st, g, args, loc)
            if x is not NotImplemented:
                return x
        if self.depth > 60:
            raise Unsupported("inlining too deep at %s" % f.key)
        self.stats["inlined"].add(f.key)
        body = f.body
        fr = self.frame(f, body, g)
        if len(args) != body["argc"]:
            if body["argc"] == 2 and len(args) > 2 or (body["argc"] == 2 and len(args) == 1):
                args = [args[0], tup(*args[1:])]
            else:
                raise Unsupported("arity of %s: %d vs %d" % (f.key, len(args), body["argc"]))
        if self.trace:
            print("  " * self.depth + f.key)
        for i, a in enumerate(args):
            st.store[(fr.fid, i + 1)] = a
        self.depth += 1
        try:
            pre, facts0 = st.ev, st.facts
            s2 = State(st.store, (), st.facts)
            outs = self.run(fr, 0, s2, frozenset())
        finally:
            self.depth -= 1
        got = self.gather(fr, outs, (), None, frozenset(), loc)
        o, c, s = got[0]
        if o == "dead":
            st.ev = pre + s.ev
            return None
        v = s.store.get((fr.fid, 0), UNIT)
        if v.op == "uninit":
            v = UNIT
        st.ev = pre + s.ev
        if fr.rest[0] == "adt" and fr.rest[1] == RES and not (v.op == "agg"):
            c, x, e = res_parts(v)
            c = self.simp(c, st.facts)
            if c is not TRUE and c is not FALSE:
                st.emit("fail", nt(c), "err", e, (), loc)
                self.assume(st, c)
                v = ok(x)
        st.store = {k: x for k, x in s.store.items() if k[0] != fr.fid}
        st.facts = st.facts | s.facts
        if fr.rest == ("p", "!"):
            return None
        if fr.rest[0] == "adt" and fr.rest[1] == RES and has_err(st.ev[len(pre):]):
            self.pending[v] = (len(pre), st.ev[len(pre):], facts0)
        return v
    def pend(self, st, v):
        p = self.pending.get(v)
        return p if p and st.ev[p[0]:p[0] + len(p[1])] == p[1] else None
    def unabsorb(self, st, v):
        """the result of an inlined call with its errors made visible, where somebody looks at them instead of passing them on"""
        p = self.pend(st, v)
        if p is None:
            return v
        c = err_cond(p[1])
        st.ev = st.ev[:p[0]] + strip_err(p[1]) + st.ev[p[0] + len(p[1]):]
        st.facts = p[2]
        x = t.res_parts(v)
        return t.mk_res(nt(c), x[1] if x[1] is not None else UNIT, mk("app", "err"))
    def harden(self, st, v):
        """the errors of an inlined call turned into panics"""
        p = self.pend(st, v)
        if p is not None:
            st.ev = st.ev[:p[0]] + to_panic(p[1]) + st.ev[p[0] + len(p[1]):]

    # ------------------------------------------------------------ higher-order helpers
    def for_each(self, fr, st, n, f):
        """run f(state, iv) n times; f returns the per-iteration value (or None).  -> value sequence function"""
        holder = {}
        def body(s, iv):
            r = f(s, iv)
            if r is None:
                return None, []
            holder["r"] = r
            return s, []
        fin, at, iv = self.summarise(st, body, trip=n)
        st.store, st.ev, st.facts = fin.store, fin.ev, fin.facts
        return iv, at, holder["r"]
    def map_seq(self, fr, st, seq, f, loc):
        """eagerly apply closure f to the elements of seq"""
        n = length(seq)
        if is_num(n) and 0 <= val(n) <= 8:
            out = []
            for k in range(val(n)):
                r = self.call_val(fr, st, f, [idx(seq, num(k))], loc)
                if r is None:
                    return None
                out.append(r)
            return lit(*out)
        if n is ZERO:
            return lit()
        def g(s, iv):
            return self.call_val(fr, s, f, [idx(seq, iv)], loc)
        iv, at, r = self.for_each(fr, st, n, g)
        return arr(n, iv, subst(r, at))

# ---------------------------------------------------------------- helpers
def short(p):
    q = norm_path(p).split("::")
    return "::".join(q[-2:]) if len(q) > 1 else q[0]

def tystr(ty):
    k = ty[0]
    if k == "p":
        return ty[1]
    if k == "adt":
        a = ",".join(tystr(x) for x in ty[2] if x[0] != "'" and not (x[0] == "adt" and x[1].endswith("Global")))
        return ty[1].split("::")[-1] + ("<%s>" % a if a else "")
    if k == "param":
        return ty[2]
    if k in ("ref", "ptr"):
        return "&" + tystr(ty[1])
    if k == "slice":
        return "[%s]" % tystr(ty[1])
    if k == "arr":
        return "[%s;%s]" % (tystr(ty[1]), ty[2])
    if k == "tup":
        return "(%s)" % ",".join(tystr(x) for x in ty[1])
    if k == "proj":
        return "<%s as %s>::%s" % (tystr(ty[2][0]), ty[3].split("::")[-1], ty[4])
    if k == "const":
        return str(ty[1])
    return k + ":" + str(ty[1] if len(ty) > 1 else "")

def eqv(a, b):
    return eq(a, b)

def eq_const(d, v, boolean):
    if d.op == "ite":
        return ite(d.args[0], eq_const(d.args[1], v, boolean), eq_const(d.args[2], v, boolean))
    if boolean:
        return d if v else nt(d)
    if is_num(d):
        return TRUE if val(d) == v else FALSE
    return eq0(sub(d, num(v)))

def gate(c, a, b):
    if a.op == "uninit":
        return b
    if b.op == "uninit":
        return a
    return ite(c, a, b)

def map_ref(v, q):
    if v.op == "ite":
        return ite(v.args[0], map_ref(v.args[1], q), map_ref(v.args[2], q))
    if v.op == "mref":
        return mk("mref", v.args[0], t.path_cat(v.args[1], q))
    raise Unsupported("projection of a gated reference")

def rep(n, v):
    w = fresh_iv()
    return arr(n, w, v)

def mapseq(v, f):
    if v.op == "lit":
        return lit(*[f(x) for x in v.args[0]])
    if v.op == "cat":
        return cat(*[mapseq(x, f) for x in v.args[0]])
    if v.op == "ite":
        return ite(v.args[0], mapseq(v.args[1], f), mapseq(v.args[2], f))
    if v.op == "mref":
        return v
    return gen(length(v), lambda i: f(idx(v, i)))

def splice(old, lo, hi, v):
    if lo is ZERO and hi is length(old):
        return v
    if old.op == "lit" and is_num(lo) and is_num(hi) and is_num(length(v)):
        xs = old.args[0]
        return lit(*xs[:val(lo)], *[idx(v, num(k)) for k in range(val(hi) - val(lo))], *xs[val(hi):])
    n = length(old)
    return gen(n, lambda i: ite(conj(t.le(lo, i), t.lt(i, hi)), idx(v, sub(i, lo)), idx(old, i)))

def iv_in(s, iv):
    return any(iv in v.fv for v in s.store.values())
def subst_state(s, m):
    return State({k: subst(v, m) if v.fv else v for k, v in s.store.items()}, subst_ev(s.ev, m), s.facts)

def subst_ev(evs, m, memo=None):
    if not m:
        return evs
    if memo is None:
        memo = {}
    def go(x):
        if type(x) is T:
            return subst(x, m, memo) if x.fv else x
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        return x
    return tuple(go(e) for e in evs)

def widen(before, after, own):
    """smallest skeleton of phis covering both; before may hold phis already"""
    if before is after:
        return before
    if before in own:
        return before
    if before.op == "agg" and after.op == "agg" and before.args[0] == after.args[0] and before.args[1] == after.args[1] \
            and len(before.args[2]) == len(after.args[2]):
        fs = [widen(x, y, own) for x, y in zip(before.args[2], after.args[2])]
        return agg(before.args[0], before.args[1], fs)
    if before.op == "clo" and after.op == "clo" and before.args[0] == after.args[0]:
        return mk("clo", before.args[0], before.args[1], tuple(widen(x, y, own) for x, y in zip(before.args[2], after.args[2])))
    if before.op == "lit" and after.op == "lit" and len(before.args[0]) == len(after.args[0]):
        return lit(*[widen(x, y, own) for x, y in zip(before.args[0], after.args[0])])
    if before.op == "iter" and after.op == "iter" and before.args[0] is after.args[0]:
        return mk("iter", before.args[0], widen(before.args[1], after.args[1], own))
    # struct updates over an opaque base
    if after.op == "updf" or before.op == "updf":
        base, idxs = before, {}
        x = after
        while x.op == "updf":
            idxs[x.args[1]] = x.args[2]
            x = x.args[0]
        b = before
        bi = {}
        while b.op == "updf":
            bi[b.args[1]] = b.args[2]
            b = b.args[0]
        if b is x:
            r = before
            for i, n in sorted({**idxs, **bi}.items()):
                r = setfield(r, i, n, widen(field(before, i, n), field(after, i, n), own))
            return r
    if before.op == "mref" and after.op == "mref" and before.args[0] == after.args[0]:
        raise Unsupported("reference changes in a loop")
    p = fresh_phi()
    own.add(p)
    return p

def collect_phis(sk, init, after, out, own):
    if sk in own:
        out[sk] = (init, after)
        return
    if not (sk.fv & own):
        return
    if sk.op in ("agg", "clo"):
        for i, x in enumerate(sk.args[2]):
            collect_phis(x, field(init, i, None), field(after, i, None), out, own)
    elif sk.op == "lit":
        for i, x in enumerate(sk.args[0]):
            collect_phis(x, idx(init, num(i)), idx(after, num(i)), out, own)
    elif sk.op == "iter":
        def pos(v):
            return v.args[1] if v.op == "iter" else None
        collect_phis(sk.args[1], pos(init), pos(after), out, own)
    elif sk.op == "updf":
        collect_phis(sk.args[3], field(init, sk.args[1], sk.args[2]), field(after, sk.args[1], sk.args[2]), out, own)
        collect_phis(sk.args[0], init, after, out, own)
    else:
        raise Unsupported("loop skeleton %s" % sk.op)

def phis_in(x, ps):
    return {p for p in x.fv if p in ps}

def linear_bound(c, iv):
    """exit condition c -> iteration count n, when c is  iv >= n  or  iv == n"""
    if c.op in ("ge0", "eq0"):
        d = t.as_dict(c.args[0])
        co, rest = 0, {}
        for m, k in d.items():
            if m == ((iv, 1),):
                co = k
            elif any(iv in x.fv for x, _ in m):
                return None
            else:
                rest[m] = k
        r = t.from_dict(rest)
        if c.op == "ge0" and co == 1:
            return neg(r)
        if c.op == "ge0" and co > 1:
            # smallest iv with co*iv + r >= 0 : ceil(-r/co)
            return t.idiv(add(neg(r), num(co - 1)), num(co))
        if c.op == "eq0" and co in (1, -1):
            return neg(r) if co == 1 else r
        if c.op == "eq0" and co not in (0,) and is_num(r) and (-val(r)) % co == 0:
            return num(-val(r) // co)
    if c.op == "or":
        return None
    return None

def solve(phis, iv):
    """recurrences phi(k+1) = step(phi(k), k), phi(0) = init  ->  {phi: function of the iteration}"""
    sol = {}
    pend = dict(phis)
    while pend:
        progress = False
        for p, (x0, s) in list(pend.items()):
            if any(q in sol for q in phis_in(s, phis)):
                s = subst(s, {q: sol[q](iv) for q in phis_in(s, phis) if q in sol})
                pend[p] = (x0, s)
            others = phis_in(s, pend) - {p}
            if others:
                continue
            f = solve1(p, x0, s, iv)
            if f is not None:
                sol[p] = f
                del pend[p]
                progress = True
        if progress:
            continue
        # joint recurrence over a minimal strongly connected group
        deps = {p: phis_in(s, pend) for p, (x0, s) in pend.items()}
        grp = min_scc(deps)
        ps = sorted(grp, key=lambda x: x.uid)
        acc = fresh_phi("acc")
        if len(ps) == 1:
            p = ps[0]
            x0, s = pend.pop(p)
            def f(n, x0=x0, st=subst(s, {p: acc}), acc=acc):
                return rec_at(x0, iv, acc, st, n)
            sol[p] = f
        else:
            m = {p: field(acc, i, None) for i, p in enumerate(ps)}
            st = tup(*[subst(pend[p][1], m) for p in ps])
            x0 = tup(*[pend[p][0] for p in ps])
            for i, p in enumerate(ps):
                def f(n, i=i, st=st, x0=x0, acc=acc):
                    return field(rec_at(x0, iv, acc, st, n), i, None)
                sol[p] = f
                del pend[p]
    return sol

def min_scc(deps):
    reach = {}
    for p in deps:
        seen, w = set(), [p]
        while w:
            x = w.pop()
            for y in deps.get(x, ()):
                if y in deps and y not in seen:
                    seen.add(y)
                    w.append(y)
        reach[p] = seen
    best = None
    for p in deps:
        grp = {p} | {q for q in reach[p] if p in reach[q]}
        if not (reach[p] - grp):
            return grp
        if best is None:
            best = grp
    return best

def rec_at(x0, iv, acc, st, n):
    if is_num(n) and 0 <= val(n) <= 3:
        x = x0
        for k in range(val(n)):
            x = subst(st, {acc: x, iv: num(k)})
        return x
    v = fresh_iv()
    return t.mk_rec(x0, v, acc, subst(st, {iv: v}), n)

def solve1(p, x0, s, iv):
    if s is p:
        return lambda n: x0
    if p not in s.fv:
        def f(n):
            prev = subst(s, {iv: sub(n, ONE)}) if iv in s.fv else s
            if prev is x0:
                return x0
            if n is ZERO:
                return x0
            if is_num(n):
                return prev
            return gate2(eq(n, ZERO), x0, prev)
        return f
    s = push_ite(s, p)
    if s.op == "cat" and p in [x for x in s.args[0]]:
        segs = s.args[0]
        if segs[0] is p and not any(p in x.fv for x in segs[1:]):
            rest = cat(*segs[1:])
            def f(n):
                return cat(x0, flat(n, iv, rest))
            return f
    if s.op in ("arr",) and p in s.args[0].fv and x0 is not None:
        # elementwise recursion:  new[v] = f(old[v], v)
        n0 = s.args[0]
        if n0 is length(p):
            v = fresh_iv()
            body = t.idx(s, v)
            pe = fresh_phi("e")
            at = mk("idx", p, v)
            b2 = subst(body, {at: pe})
            if p not in b2.fv:
                def f(n):
                    w = fresh_iv()
                    g = solve_elem(pe, idx(x0, w), subst(b2, {v: w}), iv)
                    return arr(length(x0), w, g(n)) if g else None
                if solve_elem(pe, idx(x0, v), b2, iv):
                    return f
        # drops from the end / front
        v = fresh_iv()
        body = t.idx(s, v)
        if body.op == "idx" and body.args[0] is p:
            off = sub(body.args[1], v)
            k = sub(length(p), n0)
            if v not in off.fv and p not in off.fv and p not in k.fv and iv not in off.fv and iv not in k.fv:
                return lambda n: slc(x0, mul(off, n), sub(length(x0), mul(sub(k, off), n)))
    if s.op == "upd":
        chain, x = [], s
        while x.op == "upd":
            chain.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is p and len(chain) == 1:
            i, e = chain[0]
            c = sub(i, iv)
            r = None
            if iv not in c.fv and p not in c.fv:
                sign, c0 = 1, c
                r = True
            else:
                c = add(i, iv)
                if iv not in c.fv and p not in c.fv:
                    sign, c0 = -1, c
                    r = True
            if r:
                pe = fresh_phi("e")
                e2 = subst(e, {mk("idx", p, i): pe})
                if p not in e2.fv:
                    def f(n):
                        def el(v):
                            j = sub(v, c0) if sign == 1 else sub(c0, v)
                            new = subst(e2, {pe: idx(x0, v), iv: j})
                            lo = t.le(ZERO, j)
                            hi = t.lt(j, n)
                            return ite(conj(lo, hi), new, idx(x0, v))
                        if x0.op == "lit" and len(x0.args[0]) <= 16:
                            return lit(*[el(num(k)) for k in range(len(x0.args[0]))])
                        return gen(length(x0), el)
                    return f
    if s.op in ("poly", "ite", "ind", "pow") or t.scalar(s):
        d = t.as_dict(s)
        a, b = {}, {}
        for m, c in d.items():
            es = [(x, e) for x, e in m if p in x.fv]
            if not es:
                b[m] = c
            elif es == [(p, 1)]:
                a[tuple(xe for xe in m if xe[0] is not p)] = c
            else:
                return None
        A, B = t.from_dict(a), t.from_dict(b)
        if not t.scalar(x0) and x0.op in ("agg", "lit", "arr", "cat", "clo"):
            return None
        if A is ONE:
            return lambda n: add(x0, summ(n, iv, B))
        if B is ZERO:
            if iv not in A.fv:
                return lambda n: mul(x0, power(A, n))
            return lambda n: mul(x0, t.product(n, iv, A))
        if iv not in A.fv:
            return lambda n: add(mul(x0, power(A, n)), summ(n, iv, mul(B, power(A, sub(sub(n, iv), ONE)))))
    return None

def solve_elem(p, x0, s, iv):
    if s.op == "agg" and x0.op == "agg" and s.args[0] == x0.args[0] and s.args[1] == x0.args[1]:
        ps = [fresh_phi("f") for _ in s.args[2]]
        m = {mk("fld", p, i, None): q for i, q in enumerate(ps)}
        m.update({x: ps[x.args[1]] for x in all_fld(s, p)})
        ss = [subst(x, m) for x in s.args[2]]
        if any(p in x.fv for x in ss):
            s2 = s
        else:
            fs = [solve1(q, y, x, iv) if not (phis_in(x, set(ps)) - {q}) else None for q, x, y in zip(ps, ss, x0.args[2])]
            if all(fs):
                return lambda n: agg(s.args[0], s.args[1], [f(n) for f in fs])
    f = solve1(p, x0, s, iv)
    if f:
        return f
    acc = fresh_phi("acc")
    st = subst(s, {p: acc})
    return lambda n: rec_at(x0, iv, acc, st, n)

def all_fld(x, p, out=None):
    if out is None:
        out = set()
    if type(x) is T:
        if p not in x.fv:
            return out
        if x.op == "fld" and x.args[0] is p:
            out.add(x)
        for y in x.args:
            all_fld(y, p, out)
    elif type(x) is tuple:
        for y in x:
            all_fld(y, p, out)
    return out

def gate2(c, a, b):
    return ite(c, a, b)

def push_ite(s, p):
    """ite(c, F(p), G(p)) with one shape -> that shape with gated parts"""
    if s.op != "ite" or p in s.args[0].fv:
        return s
    c, a, b = s.args[0], push_ite(s.args[1], p), push_ite(s.args[2], p)
    def pre(x):
        if x is p:
            return ()
        if x.op == "cat" and x.args[0][0] is p and not any(p in y.fv for y in x.args[0][1:]):
            return x.args[0][1:]
        return None
    pa, pb = pre(a), pre(b)
    if pa is not None and pb is not None and (pa or pb):
        return mk("cat", (p, ite(c, cat(*pa), cat(*pb))))
    if a.op == "upd" and a.args[0] is p and b is p:
        return mk("upd", p, a.args[1], ite(c, a.args[2], idx(p, a.args[1])))
    if b.op == "upd" and b.args[0] is p and a is p:
        return mk("upd", p, b.args[1], ite(c, idx(p, b.args[1]), b.args[2]))
    return s

def flat(n, iv, seq):
    """concatenation of seq(iv) for iv < n"""
    if seq.op == "lit" and len(seq.args[0]) == 1:
        return arr(n, iv, seq.args[0][0])
    if is_num(n) and 0 <= val(n) <= 8:
        return cat(*[subst(seq, {iv: num(k)}) for k in range(val(n))])
    return mk("flat", n, t.bind(iv, seq))
