"""Path-sensitive dataflow over MIR for the code around the protocols (transports, sessions, parsing, error handling).

A disjunctive abstract interpretation: values are value numbers (terms over parameters and over the results of the calls made),
a state is split where the control flow depends on which variant a value has or on a comparison, every loop is entered
once in an arbitrary iteration (all it may change is forgotten at its head), local functions, closures and futures are
analysed in their caller's context, and calls out of the program are recorded as events with the values they get.  Nothing is executed and no
solver is involved: two conditions are told apart only by their value numbers.
"""
import itertools, re
from .interp import short, Unsupported
from .prog import Cfg, succs

RES, OPT, CF, POLL = "core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow", "core::task::poll::Poll"
UNIT = ("agg", "tup", 0, ())
TRUE, FALSE = ("bool", True), ("bool", False)
def num(n):
    return ("int", n)
def agg(k, v, *f):
    return ("agg", k, v, tuple(f))
def okv(x):
    return agg(RES, 0, x)
def errv(x):
    return agg(RES, 1, x)
def some(x):
    return agg(OPT, 1, x)
NONE = agg(OPT, 0)

LOGGING = re.compile(r"\btracing|(^|['\"<( ])log::")
class Ev:
    """a call that leaves the program, or a store through an unknown reference"""
    __slots__ = ("i", "p", "args", "res", "loc", "ts", "fn", "raw", "facts", "k", "vers", "ty")
    def __repr__(self):
        return "%s(%s)" % (self.p, ", ".join(show(a) for a in self.args))

class St:
    __slots__ = ("store", "ev", "facts", "ver", "loops")
    def __init__(self, store=None, ev=(), facts=None, ver=None, loops=()):
        self.store, self.ev, self.facts, self.ver, self.loops = store if store is not None else {}, ev, facts if facts is not None else {}, ver if ver is not None else {}, loops
    def copy(self):
        return St(dict(self.store), self.ev, dict(self.facts), dict(self.ver), self.loops)

class Out:
    """end of a path: kind 'ret' | 'panic' | 'loop' (back at the head of the loop it entered) | 'diverge'"""
    __slots__ = ("kind", "st", "v", "why")
    def __init__(self, kind, st, v=None, why=None):
        self.kind, self.st, self.v, self.why = kind, st, v, why

def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 6:
        return ".."
    k = v[0]
    s = lambda x: show(x, d + 1)
    if k in ("int", "bool", "str", "sym"):
        return str(v[1])
    if k == "agg":
        n = str(v[1]).split("::")[-1]
        return "%s%s(%s)" % (n if n != "tup" else "", "#%d" % v[2] if n != "tup" else "", ", ".join(s(x) for x in v[3]))
    if k == "fld":
        return "%s.%s" % (s(v[1]), v[2])
    if k == "pay":
        return "%s?%d.%d" % (s(v[1]), v[2], v[3])
    if k == "ext":
        return "%s@%d" % (v[2], v[1])
    if k == "app":
        return "%s(%s)" % (v[1], ", ".join(s(x) for x in v[2:]))
    if k in ("clo", "cor"):
        return "%s:%s" % (k, v[1].split("::", 1)[-1])
    if k == "sum":
        return "(" + "+".join(("" if c == 1 else "%d*" % c) + s(x) if x is not None else str(c) for x, c in v[1]) + ")"
    if k == "ref":
        return "&%s%s" % (v[1], v[2] or "")
    return "%s(%s)" % (k, ", ".join(s(x) for x in v[1:]))

def subterms(v, seen=None):
    """all terms below v"""
    if not isinstance(v, tuple):
        return
    st = [v]
    while st:
        x = st.pop()
        yield x
        for y in x:
            if isinstance(y, tuple):
                st.append(y)

class Frame:
    __slots__ = ("fn", "body", "g", "cfg", "fid", "depth", "inloops")

PURE = set("""len is_empty as_slice as_bytes to_vec to_be_bytes from_be_bytes to_le_bytes to_ne_bytes from_le_bytes hostname ip port is_ipv6 is_ipv4 kind
 as_micros as_millis as_secs saturating_sub saturating_add checked_add checked_sub checked_mul min max div_ceil is_power_of_two next_power_of_two
 trailing_zeros is_zero is_one rem_euclid wrapping_add wrapping_sub wrapping_mul contains_key contains starts_with ends_with chars trim bit_len leading_zeros
 rev zip skip take chain enumerate iter iter_mut into_iter map filter chunks chunks_exact windows cloned copied par_iter into_par_iter values keys step_by sorted_by_key sorted_by sorted filter_map flat_map inspect peekable split_at""".split())
IDENT = set("""clone to_owned deref deref_mut as_ref as_mut borrow borrow_mut into from into_future new_unchecked get_unchecked_mut get_mut_unchecked as_deref as_deref_mut
 freeze into_iter_id as_pin_mut try_clone_id unsize into_boxed_slice into_inner_id black_box must_use""".split())

class Paths:
    def __init__(self, prog, overrides=None, limit=60000, inline=None, depth=40):
        self.p, self.ov, self.limit, self.maxdepth = prog, overrides or {}, limit, depth
        self.fids, self.evs, self.syms = itertools.count(), itertools.count(), itertools.count()
        self.cfgs, self.n = {}, 0
        self.noinline, self.destty = inline, None
        self.inlined, self.external, self.loops = set(), set(), set()
        self.watch, self.made, self.pure, self.awty = set(), [], {}, None

    # ------------------------------------------------------------------ entry
    def run(self, f, args=None, g=None, st=None):
        """all paths of a function; parameters are ('sym', name) unless given in args (dict by name or list)"""
        st = st or St()
        names = f.body.get("names") or []
        vals = []
        for i in range(f.body["argc"]):
            nm = self.argname(f, i)
            if isinstance(args, (list, tuple)):
                vals.append(args[i])
            else:
                vals.append((args or {}).get(nm, ("sym", nm)))
        if g is None:
            g = tuple(("'",) if x.startswith("'") else ("const", x) if x.startswith("#") else ("param", i, x) for i, x in enumerate(f.gen))
        return self.call_fn(f, g, vals, st, 0)
    def argname(self, f, i):
        nm = f.body["names"]
        v = None
        if isinstance(nm, dict):
            v = nm.get(str(i + 1)) or nm.get(i + 1)
        elif isinstance(nm, list):
            for e in nm:
                if isinstance(e, (list, tuple)) and len(e) == 2 and tuple(e[1]) == (i + 1,):
                    v = e[0]
        return v or "arg%d" % i

    # ------------------------------------------------------------------ values
    def fresh(self, nm):
        return ("sym", "%s'%d" % (nm, next(self.syms)))
    def load(self, st, r):
        while r[0] == "ref":
            v = st.store.get(r[1])
            if v is None:
                v = ("sym", "uninit")
            for e in r[2]:
                v = self.load(st, v) if v[0] == "ref" else v
                v = self.step(st, v, e)
            r = v
        return r
    def full(self, st, v, d=0):
        """the value with references replaced by what they refer to"""
        if d > 12:
            return v
        if v[0] == "ref":
            return self.full(st, self.load(st, v), d + 1)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.full(st, x, d + 1) for x in v[3]))
        if v[0] in ("clo", "cor"):
            return (v[0], v[1], v[2], tuple(self.full(st, x, d + 1) for x in v[3]))
        if v[0] == "app":
            return v[:2] + tuple(self.full(st, x, d + 1) if isinstance(x, tuple) else x for x in v[2:])
        return v
    def step(self, st, v, e):
        k = e[0]
        if v[0] == "ref":
            v = self.load(st, v)
        if k == "f":
            if v[0] == "agg" and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] in ("clo", "cor") and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] == "dc":
                return ("pay", v[1], v[2], e[1])
            return ("fld", v, e[2] if e[2] is not None else e[1])
        if k == "d":
            if v[0] == "agg":
                return v
            return ("dc", v, e[1])
        if k == "i":
            if v[0] == "agg" and v[1] == "arr" and e[1][0] == "int" and e[1][1] < len(v[3]):
                return v[3][e[1][1]]
            return ("app", "elem", v, e[1])
        if k == "ci":
            if v[0] == "agg" and v[1] == "arr":
                i = len(v[3]) - e[1] if e[3] else e[1]
                if 0 <= i < len(v[3]):
                    return v[3][i]
            return ("app", "elem", v, num(-e[1] if e[3] else e[1]))
        if k == "ss":
            return ("app", "slice", v, num(e[1]), num(-e[2] if e[3] else e[2]))
        raise Unsupported("place elem %s" % (e,))
    def path_elem(self, fr, st, e):
        if e[0] == "i":
            return ("i", self.full(st, st.store.get((fr.fid, e[1]), ("sym", "uninit"))))
        return e
    def place(self, fr, st, p):
        """('ref', cell, path), or ('val', v) when behind an unknown reference"""
        cell, path = (fr.fid, p[0]), ()
        for j, e in enumerate(p[1:]):
            if e == "*":
                v = self.load1(st, ("ref", cell, path))
                if v[0] == "ref":
                    cell, path = v[1], v[2]
                    continue
                for e2 in p[2 + j:]:
                    if e2 == "*":
                        if v[0] == "ref":
                            v = self.load1(st, v)
                        continue
                    v = self.step(st, v, self.path_elem(fr, st, e2))
                return ("val", v)
            path = path + (self.path_elem(fr, st, e),)
        return ("ref", cell, path)
    def load1(self, st, r):
        """what a place holds, references left as they are"""
        v = st.store.get(r[1], ("sym", "uninit"))
        for e in r[2]:
            v = self.step(st, v, e)
        return v
    def read(self, fr, st, p):
        r = self.place(fr, st, p)
        return r[1] if r[0] == "val" else self.load1(st, r)
    def put(self, st, old, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "d":
            return self.put(st, old, path[1:], v)
        if old[0] == "ref":
            self.assign(st, old, path, v)
            return old
        if e[0] == "f":
            if old[0] in ("agg", "clo", "cor"):
                fs = list(old[3])
                while len(fs) <= e[1]:
                    fs.append(("sym", "uninit"))
                fs[e[1]] = self.put(st, fs[e[1]], path[1:], v)
                return old[:3] + (tuple(fs),)
            if old == ("sym", "uninit"):
                fs = [("sym", "uninit")] * e[1] + [self.put(st, old, path[1:], v)]
                return ("agg", "tup", 0, tuple(fs))
            return ("app", "upd", old, e[2] if e[2] is not None else e[1], self.put(st, self.step(st, old, e), path[1:], v))
        if e[0] in ("i", "ci", "ss"):
            return ("app", "updelem", old, e[1] if e[0] == "i" else num(e[1]), self.put(st, self.step(st, old, e), path[1:], v))
        return old
    def assign(self, st, r, path, v):
        path = r[2] + tuple(path)
        cell = r[1]
        old = st.store.get(cell, ("sym", "uninit"))
        # follow references on the way
        cur = old
        for n, e in enumerate(path):
            if cur[0] == "ref":
                return self.assign(st, cur, path[n:], v)
            cur = self.step(st, cur, e) if not (cur == ("sym", "uninit")) else cur
        st.store[cell] = self.put(st, old, path, v)
    def write(self, fr, st, p, v):
        if len(p) == 1:
            st.store[(fr.fid, p[0])] = v
            return
        r = self.place(fr, st, p)
        if r[0] == "val":
            self.emit(st, "store", (r[1], v), UNIT, None, (), fr)
            self.bump(st, r[1])
            return
        self.assign(st, ("ref", r[1], ()), r[2], v)
    def bump(self, st, v):
        b = base(v)
        st.ver[b] = st.ver.get(b, 0) + 1
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read(fr, st, o[1])
        if k == "int":
            if o[2] == ("p", "bool"):
                return TRUE if o[1] else FALSE
            return num(int(o[1]))
        if k == "str":
            return ("str", o[1])
        if k == "zst":
            return UNIT
        if k == "fn":
            r = o[1]
            return ("fnv", r["k"], tuple(self.p.tsubst(x, fr.g) for x in r["a"]), r["p"], r.get("tr"), tuple(r["ctor"]) if isinstance(r.get("ctor"), (list, tuple)) else r.get("ctor"))
        if k == "const":
            t = o[3] if len(o) > 3 else None
            if isinstance(o[2], int) and t is not None and t[0] == "p":
                return ("bool", bool(o[2])) if t[1] == "bool" else num(o[2])
            return self.const(fr, st, o[1])
        if k == "prom":
            f = self.p.fns.get(o[1]) if isinstance(o[1], str) else None
            return self.prom(fr, st, o)
        if k == "cparam":
            return ("sym", "const %s" % (o[2],))
        return ("sym", "const? %s" % (o[1:],))
    def const(self, fr, st, r):
        f = self.p.fns.get(r["k"])
        if f is not None and f.body is not None and not r["k"].split("::")[-1].startswith("__CALLSITE"):
            outs = self.call_fn(f, r["a"], [], St(), fr.depth + 1)
            if len(outs) == 1 and outs[0].kind == "ret":
                v = self.full(outs[0].st, outs[0].v)
                if not any(x[0] == "ext" for x in subterms(v) if x):
                    return v
        return ("sym", "const " + r["k"])
    def prom(self, fr, st, o):
        owner = self.p.fns.get(o[1]) if isinstance(o[1], str) else fr.fn
        try:
            body = (owner or fr.fn).proms[o[2]]
        except Exception:
            return ("sym", "promoted")
        outs = self.run_body(owner or fr.fn, body, fr.g, [], St(), fr.depth + 1)
        if len(outs) == 1 and outs[0].kind == "ret":
            return self.full(outs[0].st, outs[0].v)
        return ("sym", "promoted")

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "rawref", "addr", "rawptr"):
            q = self.place(fr, st, r[1])
            if q[0] == "val":
                return q[1]
            return q
        if k == "agg":
            h = r[1]
            fs = tuple(self.operand(fr, st, x) for x in r[2])
            if h[0] == "adt":
                if h[1] in self.watch:
                    self.made.append((h[1], h[2], tuple(self.full(st, x) for x in fs), fr.fn.key, st.copy()))
                return ("agg", h[1], h[2], fs)
            if h[0] in ("tup", "arr"):
                return ("agg", h[0], 0, fs)
            if h[0] in ("clo", "cor"):
                return (h[0], h[1], tuple(self.p.tsubst(x, fr.g) for x in h[2]), fs)
            return ("agg", h[0], 0, fs)
        if k == "rep":
            return ("app", "rep", self.operand(fr, st, r[1]), num(int(r[2])) if str(r[2]).isdigit() else ("sym", "const %s" % r[2]))
        if k == "bin":
            return self.binop(st, r[1], self.full(st, self.operand(fr, st, r[2])), self.full(st, self.operand(fr, st, r[3])))
        if k == "un":
            a = self.full(st, self.operand(fr, st, r[2]))
            if r[1] == "Not":
                if a[0] == "bool":
                    return ("bool", not a[1])
                if a[0] == "not":
                    return a[1]
                return ("not", a)
            if r[1] == "PtrMetadata":
                return self.obs(st, "len", (a,))
            return ("app", r[1], a)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            t = r[3] if len(r) > 3 else None
            t = self.p.tsubst(t, fr.g) if isinstance(t, tuple) else None
            if t is not None and t[0] == "p" and t[1] in NARROW:
                o = self.opty(fr, r[2])
                if v[0] == "int":
                    return num(v[1] % (1 << NARROW[t[1]])) if t[1][0] == "u" else v
                if v[0] != "bool" and o is not None and o[0] == "p" and o[1] != "bool" and WIDTH.get(o[1], 64) > NARROW[t[1]]:
                    return ("app", "as:" + t[1], self.full(st, v))
            return v
        if k == "disc":
            v = self.load(st, self.read(fr, st, r[1]))
            return self.disc(st, v)
        if k == "len":
            return self.obs(st, "len", (self.full(st, self.read(fr, st, r[1])),))
        raise Unsupported("rvalue %s" % k)
    def disc(self, st, v):
        if v[0] == "agg":
            return num(v[2])
        if v[0] == "cmp":
            return ("cmpd", v[1], v[2])
        return ("disc", v)
    def obs(self, st, name, args):
        """a function of the present state of its arguments"""
        if name == "len" and args[0][0] == "agg" and args[0][1] == "arr":
            return num(len(args[0][3]))
        vs = tuple(st.ver.get(base(a), 0) for a in args)
        return ("app", name) + tuple(args) + ((("v",) + vs,) if any(vs) else ())
    def binop(self, st, op, a, b):
        if op.endswith("WithOverflow"):
            return agg("tup", 0, self.binop(st, op[:-12], a, b), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if a[0] in ("int", "bool") and b[0] in ("int", "bool"):
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: num(x + y), "Sub": lambda: num(x - y), "Mul": lambda: num(x * y), "Div": lambda: num(x // y), "Rem": lambda: num(x % y),
                     "Eq": lambda: ("bool", x == y), "Ne": lambda: ("bool", x != y), "Lt": lambda: ("bool", x < y), "Le": lambda: ("bool", x <= y),
                     "Gt": lambda: ("bool", x > y), "Ge": lambda: ("bool", x >= y), "BitAnd": lambda: (a[0], x & y), "BitOr": lambda: (a[0], x | y),
                     "BitXor": lambda: (a[0], x ^ y), "Shl": lambda: num(x << y), "Shr": lambda: num(x >> y)}[op]
                return r()
            except Exception:
                pass
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return neg(lt(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return neg(lt(b, a))
        if op in ("Eq", "Ne"):
            if a == b and op == "Eq":
                return TRUE
            e = ("eq",) + tuple(sorted((a, b), key=repr))
            if a[0] == "bool" or b[0] == "bool":
                c, x = (a, b) if a[0] == "bool" else (b, a)
                e = x if c[1] else ("not", x)
            if op == "Eq":
                return e
            return e[1] if e[0] == "not" else ("not", e)
        if op in ("Add", "Sub"):
            return linear(op, a, b)
        if op in ("Mul", "BitAnd", "BitOr", "BitXor"):
            a, b = sorted((a, b), key=repr)
        return ("app", op, a, b)

    # ------------------------------------------------------------------ decisions
    def decide(self, st, c):
        """known truth of a condition"""
        if c[0] == "bool":
            return c[1]
        if c[0] == "not":
            r = self.decide(st, c[1])
            return None if r is None else not r
        r = st.facts.get(c)
        if r is None and c[0] == "eq" and c[1] != c[2] and all(x[0] in ("int", "str") for x in c[1:]):
            return False
        return r
    def assume(self, st, c, val):
        if c[0] == "not":
            return self.assume(st, c[1], not val)
        if c[0] == "bool":
            return
        st.facts[c] = val
    def variants(self, st, v, ty=None, arity=None):
        """[(state, variant, payloads or None)] for an enum value"""
        v = self.load(st, v)
        if v[0] == "agg":
            return [(st, v[2], v)]
        d = ("disc", v)
        known = st.facts.get(d)
        out = []
        for k in range(arity or 2):
            if known is not None and known != k:
                continue
            s = st.copy() if known is None else st
            s.facts[d] = k
            out.append((s, k, v))
        return out
    def payload(self, v, variant, i=0):
        if v[0] == "agg":
            return v[3][i] if i < len(v[3]) else UNIT
        return ("pay", v, variant, i)

    # ------------------------------------------------------------------ control
    def cfg(self, body):
        c = self.cfgs.get(id(body))
        if c is None:
            c = Cfg(body)
            c.mods = {}
            self.cfgs[id(body)] = c
        return c
    def call_fn(self, f, g, args, st, depth):
        if depth > self.maxdepth:
            raise Unsupported("inlining too deep at %s" % f.key)
        self.inlined.add(f.key)
        body = f.body
        if len(args) != body["argc"]:
            if body["argc"] == 2:
                args = [args[0], ("agg", "tup", 0, tuple(args[1:]))]
            elif body["argc"] == len(args) - 1 + (len(args[-1][3]) if args and args[-1][0] == "agg" else 0):
                args = list(args[:-1]) + list(args[-1][3])
            else:
                raise Unsupported("arity of %s" % f.key)
        return self.run_body(f, body, g, args, st, depth)
    def run_body(self, f, body, g, args, st, depth):
        fr = Frame()
        fr.fn, fr.body, fr.g, fr.cfg, fr.fid, fr.depth = f, body, g, self.cfg(body), next(self.fids), depth
        for i, a in enumerate(args):
            st.store[(fr.fid, i + 1)] = a
        outs = []
        work = [(0, st, frozenset())]
        while work:
            b, s, ent = work.pop()
            self.block(fr, b, s, ent, work, outs)
            self.n += 1
            if self.n > self.limit:
                raise Unsupported("too many paths in %s" % f.key)
        return outs
    def block(self, fr, b, st, ent, work, outs):
        """run from block b on; forks are pushed on the work list. ent: loops this path is inside of"""
        bbs = fr.body["bbs"]
        while True:
            if b in fr.cfg.headers:
                if b in ent:
                    outs.append(Out("loop", st, None, next(x for x in reversed(st.loops) if x[0] == fr.fid and x[1] == b)))
                    return
                ent = frozenset(x for x in ent if b in fr.cfg.loop.get(x, ())) | {b}
                self.loops.add((fr.fn.key, b))
                self.havoc(fr, b, st)
                st.loops = st.loops + ((fr.fid, b, len(st.ev), fr.fn.key),)
            elif ent:
                ent = frozenset(x for x in ent if b in fr.cfg.loop.get(x, ()))
            stmts, term, loc, cl = bbs[b]
            for s in stmts:
                if s[0] == "=":
                    self.write(fr, st, s[1], self.rvalue(fr, st, s[2]))
            k = term[0]
            if k == "goto":
                b = term[1]
            elif k == "drop":
                b = term[2]
            elif k == "ret":
                v = st.store.get((fr.fid, 0), UNIT)
                if v == ("sym", "uninit"):
                    v = UNIT
                if fr.depth:
                    # results that refer to locals of this body are kept alive
                    pass
                outs.append(Out("ret", st, v))
                return
            elif k in ("unreach", "unwind"):
                return
            elif k == "assert":
                c = self.full(st, self.operand(fr, st, term[1]))
                if not term[2]:
                    c = c[1] if c[0] == "not" else ("bool", not c[1]) if c[0] == "bool" else ("not", c)
                d = self.decide(st, c)
                if d is not True:
                    s2 = st.copy()
                    self.assume(s2, c, False)
                    outs.append(Out("panic", s2, c, "%s at %s" % (term[3], loc)))
                    if d is False:
                        return
                    self.assume(st, c, True)
                b = term[4]
            elif k == "yield":
                self.write(fr, st, term[2], ("sym", "ctx"))
                b = term[1]
            elif k == "switch":
                d = self.full(st, self.operand(fr, st, term[1]))
                nxt = self.branch(st, d, term, self.opty(fr, term[1]))
                if not nxt:
                    return
                for t, s in nxt[1:]:
                    work.append((t, s, ent))
                b, st = nxt[0]
            elif k == "call":
                res = self.call(fr, st, term, loc)
                first = None
                for o in res:
                    if o.kind == "ret" and term[4] is not None:
                        if o.v is None:
                            continue
                        self.write(fr, o.st, term[3], o.v)
                        if first is None:
                            first = o.st
                        else:
                            work.append((term[4], o.st, ent))
                    elif o.kind == "ret":
                        outs.append(Out("panic", o.st, None, "diverges at %s" % (loc,)))
                    else:
                        outs.append(o)
                if first is None:
                    return
                b, st = term[4], first
            else:
                raise Unsupported("terminator %s" % k)
    def opty(self, fr, o):
        """type of an operand, where the program gives it"""
        if o[0] not in ("cp", "mv"):
            return None
        p = o[1]
        if len(p) == 1:
            return self.p.tsubst(fr.body["tys"][p[0]], fr.g)
        if p[-1] != "*" and p[-1][0] == "f" and len(p[-1]) > 3 and p[-1][3] is not None:
            return self.p.tsubst(p[-1][3], fr.g)
        return None
    def branch(self, st, d, term, ty=None):
        arms = [(int(v), t) for v, t in term[2]]
        other = term[3]
        if d[0] == "disc" and any(x[0] == "sym" and str(x[1]).startswith(("const tracing", "const log", "tracing'")) for x in subterms(d[1]) if x):
            return [(other if other is not None else arms[-1][1], st)]
        if d[0] in ("int", "bool"):
            n = int(d[1])
            for v, t in arms:
                if v == n or (v == 255 and n == -1):
                    return [(t, st)]
            return [(other, st)] if other is not None else []
        if d[0] in ("disc",):
            known = st.facts.get(d)
            if known is not None and not isinstance(known, frozenset):
                for v, t in arms:
                    if v == known:
                        return [(t, st)]
                return [(other, st)] if other is not None else []
            excl = known or frozenset()
            out = []
            for v, t in arms:
                if v in excl:
                    continue
                s = st.copy()
                s.facts[d] = v
                out.append((t, s))
            if other is not None:
                s = st.copy()
                rest = {0, 1} - {v for v, _ in arms} - excl if d[0] == "disc" else ()
                s.facts[d] = next(iter(rest)) if len(arms) == 1 and len(rest) == 1 and self.two(d[1]) else excl | {v for v, _ in arms}
                out.append((other, s))
            return out
        if d[0] == "cmpd":
            # ordering of a and b
            a, b = d[1], d[2]
            out = []
            conds = {255: (True, False), -1: (True, False), 0: (False, False), 1: (False, True)}
            seen = set()
            for v, t in arms:
                seen.add(-1 if v == 255 else v)
                s = self.ordered(st, a, b, -1 if v == 255 else v)
                if s:
                    out.append((t, s))
            if other is not None:
                for v in {-1, 0, 1} - seen:
                    s = self.ordered(st, a, b, v)
                    if s:
                        out.append((other, s))
            return out
        # booleans and integers
        if {v for v, _ in arms} <= {0, 1} and len(arms) == 1 and (ty == ("p", "bool") if ty is not None and ty[0] == "p" else boolean(d)):
            val = self.decide(st, d)
            out = []
            for truth in (True, False):
                if val is not None and val != truth:
                    continue
                t = arms[0][1] if (arms[0][0] == 1) == truth else other
                if t is None:
                    continue
                s = st.copy()
                self.assume(s, d, truth)
                out.append((t, s))
            return out
        out = []
        rest = []
        for v, t in arms:
            c = self.binop(st, "Eq", d, num(v))
            r = self.decide(st, c)
            if r is False:
                continue
            s = st.copy()
            self.assume(s, c, True)
            out.append((t, s))
            if r is True:
                return [(t, s)]
            rest.append(c)
        if other is not None:
            s = st.copy()
            for c in rest:
                self.assume(s, c, False)
            out.append((other, s))
        return out
    def two(self, v):
        return True
    def ordered(self, st, a, b, rel):
        l, g, e = lt(a, b), lt(b, a), self.binop(st, "Eq", a, b)
        want = {-1: (True, False, False), 0: (False, False, True), 1: (False, True, False)}[rel]
        s = st.copy()
        for c, w in zip((l, g, e), want):
            while c[0] == "not":
                c, w = c[1], not w
            r = self.decide(st, c)
            if r is not None and r != w:
                return None
            if c[0] != "bool":
                self.assume(s, c, w)
        return s
    def havoc(self, fr, h, st):
        """forget what the loop at h may change"""
        m = fr.cfg.mods.get(h)
        if m is None:
            assigned, through, borrowed = set(), [], []
            for b in fr.cfg.loop[h]:
                stmts, term, loc, cl = fr.body["bbs"][b]
                dests = [s[1] for s in stmts if s[0] == "="]
                if term[0] == "call":
                    dests.append(term[3])
                if term[0] == "yield":
                    dests.append(term[2])
                for p in dests:
                    if len(p) == 1:
                        assigned.add(p[0])
                    else:
                        through.append(p)
                for s in stmts:
                    if s[0] == "=" and s[2][0] in ("ref", "rawref", "addr", "rawptr") and len(s[2]) > 2 and s[2][2]:
                        borrowed.append(s[2][1])
            m = fr.cfg.mods[h] = (assigned, through, borrowed)
        assigned, through, borrowed = m
        for p in through + borrowed:
            if p[0] in assigned:
                continue
            q = p
            # the longest prefix that can be evaluated here
            cut = next((i for i, e in enumerate(p[1:]) if e != "*" and e[0] in ("i", "ci", "ss")), None)
            if cut is not None:
                q = p[:cut + 1]
            try:
                r = self.place(fr, st, q)
            except Exception:
                continue
            if r[0] == "val":
                self.bump(st, r[1])
            elif r[1] in st.store:
                old = self.load1(st, r)
                self.forget(st, r, old)
        for l in assigned:
            c = (fr.fid, l)
            if c in st.store:
                del st.store[c]
                # a value from an earlier iteration, if one is read
                st.store[c] = ("sym", "loop %s.%d'%d" % (fr.fn.key.split("::", 1)[-1], l, next(self.syms)))
    def forget(self, st, r, old, d=0):
        if old[0] in ("clo", "cor", "fnv"):
            for x in old[3] if old[0] != "fnv" else ():
                if x[0] == "ref":
                    self.forget(st, x, x, d)
            return
        if old[0] == "ref":
            if d < 4 and old[1] in st.store:
                self.forget(st, old, self.load1(st, old), d + 1)
            return
        if old[0] == "agg" and old[1] not in (OPT, RES) and d < 4:
            for i, x in enumerate(old[3]):
                self.forget(st, ("ref", r[1], r[2] + (("f", i, None, None),)), x, d + 1)
            return
        if handle(old):
            self.bump(st, old)
            return
        self.assign(st, ("ref", r[1], ()), r[2], self.fresh("loop"))

    # ------------------------------------------------------------------ calls
    def emit(self, st, p, args, res, loc, ts, fr, raw=None):
        e = Ev()
        e.i, e.p, e.args, e.loc, e.ts, e.fn = next(self.evs), p, tuple(args), loc, ts, fr.fn.key if fr else None
        e.res = ("ext", e.i, p) if res is None else res
        e.raw, e.facts, e.ty = raw or p, None, self.destty
        if p == "next" and not (e.ty and e.ty[0] == "adt" and e.ty[1] == OPT):
            e.ty = None
        e.k = len(st.ev)
        e.vers = tuple(st.ver.get(base(a), 0) for a in args)
        st.ev = st.ev + (e,)
        return e
    def call(self, fr, st, term, loc):
        f = term[1]
        args = [self.operand(fr, st, x) for x in term[2]]
        d = term[3]
        self.destty = self.p.tsubst(fr.body["tys"][d[0]], fr.g) if d and len(d) == 1 else None
        if f[0] == "fn":
            return self.call_ref(fr, st, f[1], args, loc)
        v = self.load(st, self.operand(fr, st, f))
        return self.call_val(fr, st, v, args, loc)
    def call_val(self, fr, st, v, args, loc):
        v = self.load(st, v)
        if v[0] in ("clo",):
            fn = self.p.fns.get(v[1])
            if fn is None or fn.body is None:
                raise Unsupported("closure %s" % v[1])
            me = v
            ty = fn.body["tys"][1] if fn.body["argc"] else None
            return self.call_fn(fn, v[2], [me] + list(args), st, fr.depth + 1)
        if v[0] == "fnv":
            r = {"k": v[1], "a": v[2], "p": v[3], "tr": v[4], "ctor": v[5]}
            fr2 = Frame()
            fr2.fn, fr2.body, fr2.g, fr2.cfg, fr2.fid, fr2.depth = fr.fn, None, (), None, None, fr.depth
            return self.call_ref(fr2, st, r, list(args), loc)
        e = self.emit(st, "call", (v,) + tuple(self.full(st, a) for a in args), None, loc, (), fr)
        return [Out("ret", st, e.res)]
    def call_ref(self, fr, st, r, args, loc):
        p = short(r["p"])
        name = p.split("::")[-1]
        if name.startswith("r#"):
            name = name[2:]
        if LOGGING.search(r["p"]) or any(LOGGING.search(str(x)) for x in r["a"]):
            if name in ("le", "lt", "is_enabled", "ge", "gt"):
                return [Out("ret", st, FALSE)]
            return [Out("ret", st, self.fresh("tracing"))]
        if r["p"].startswith("core::fmt") or r["p"].startswith("alloc::fmt"):
            return [Out("ret", st, ("app", "fmt") + tuple(x for x in (self.full(st, y) for y in args) if x[0] not in ("const", "str", "fnv", "int")))]
        a = tuple(self.p.tsubst(x, fr.g) for x in r["a"])
        ovr = self.ov.get(r["k"]) or self.ov.get(p)
        if ovr:
            x = ovr(self, fr, st, a, args, loc)
            if x is not NotImplemented:
                return x
        m = MODELS.get(p) or MODELS.get("*::" + name)
        f, g, _ = self.p.resolve(r, fr.g)
        if f is not None and f.key != r["k"]:
            ovr = self.ov.get(f.key)
            if ovr:
                x = ovr(self, fr, st, a, args, loc)
                if x is not NotImplemented:
                    return x
        if f is not None and f.body is not None and not (self.noinline and self.noinline(f)):
            if f.raw.get("kind", "").startswith("Static"):
                return [Out("ret", st, ("sym", f.key))]
            return self.call_fn(f, g, args, st, fr.depth + 1)
        if m is not None:
            x = m(self, fr, st, a, args, loc, p)
            if x is not NotImplemented:
                return x
        c = r.get("ctor")
        if c is not None:
            if isinstance(c, (list, tuple)):
                return [Out("ret", st, ("agg", c[0], c[1], tuple(args)))]
            return [Out("ret", st, ("agg", r["k"], 0, tuple(args)))]
        if name in IDENT and args:
            return [Out("ret", st, args[0])]
        self.external.add(p)
        vals = tuple(self.full(st, x) for x in args)
        if name in PURE:
            if name.endswith("_bytes"):
                w = re.search(r"\b([ui](?:8|16|32|64|128|size))\b", r["p"])
                name += ":" + w.group(1) if w else ""
            if name in ("iter", "into_iter", "iter_mut", "par_iter", "into_par_iter") and vals and vals[0][0] == "app" and vals[0][1] in ITERS:
                return [Out("ret", st, vals[0])]
            return [Out("ret", st, self.obs(st, name, vals))]
        e = self.emit(st, p, vals, None, loc, a, fr, r["p"])
        # what the callee may change: handles keep their identity, plain values are forgotten
        for x in args:
            x = x
            if x[0] == "ref" and x[1] in st.store:
                self.forget_ext(fr, st, x, r)
            elif x[0] != "ref":
                for y in ((x,) if handle(x) else ()):
                    self.bump(st, y)
        return [Out("ret", st, e.res)]
    def effects(self, it):
        """whether the closures of a lazy iterator do anything but compute"""
        for x in subterms(it):
            if x and x[0] == "clo":
                k = self.pure.get(x[1])
                if k is None:
                    f = self.p.fns.get(x[1])
                    k = False
                    try:
                        q = Paths(self.p, self.ov, 4000, self.noinline, 10)
                        outs = q.call_fn(f, x[2], [x] + [("sym", "item%d" % i) for i in range(f.body["argc"] - 1)], St(), 1)
                        k = any(o.st.ev or o.kind != "ret" for o in outs) or len(outs) > 1
                    except Exception:
                        k = False
                    self.pure[x[1]] = k
                if k:
                    return True
        return False
    def forget_ext(self, fr, st, x, r):
        old = self.load1(st, x)
        if old[0] == "ref":
            if old[1] in st.store:
                self.forget_ext(fr, st, old, r)
            return
        if handle(old):
            self.bump(st, old)
    # ------------------------------------------------------------------ futures
    def await_(self, fr, st, fut, loc):
        """[(state, value)] of a completed future"""
        fut = self.load(st, fut)
        if fut[0] == "cor":
            fn = self.p.fns.get(fut[1])
            if fn is None or fn.body is None:
                raise Unsupported("future %s" % fut[1])
            return self.call_fn(fn, fut[2], [fut, ("sym", "ctx")][:fn.body["argc"]], st, fr.depth + 1)
        if fut[0] == "agg" and fut[1] == "timeout":
            s1 = st.copy()
            e = self.emit(s1, "elapsed", (self.full(s1, fut[3][0]), self.full(s1, fut[3][1])), None, loc, (), fr)
            outs = [Out("ret", s1, errv(e.res))]
            st = st.copy()
            if self.awty is not None and self.awty[0] == "adt" and self.awty[1] == RES:
                self.awty = self.awty[2][0]
            self.emit(st, "bounded", (self.full(st, fut[3][0]), self.full(st, fut[3][1])), UNIT, loc, (), fr)
            for o in self.await_(fr, st, fut[3][1], loc):
                outs.append(Out("ret", o.st, okv(o.v)) if o.kind == "ret" else o)
            return outs
        if fut[0] == "agg" and fut[1] == "poll_fn":
            outs = []
            for o in self.call_val(fr, st, fut[3][0], [("sym", "ctx")], loc):
                if o.kind != "ret":
                    # internals of select!: no branch was ready
                    continue
                for s, k, v in self.variants(o.st, o.v, POLL):
                    if k == 0:
                        outs.append(Out("ret", s, self.payload(v, 0)))
            return outs
        e = self.emit(st, "await", (self.full(st, fut),), ("app", "out", self.full(st, fut)), loc, (), fr)
        e.ty = self.awty
        return [Out("ret", st, e.res)]

NARROW = {"u8": 8, "u16": 16, "u32": 32, "i8": 8, "i16": 16, "i32": 32, "u64": 64, "usize": 64, "i64": 64}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "i8": 8, "i16": 16, "i32": 32, "u64": 64, "usize": 64, "i64": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32}
ITERS = set("iter into_iter iter_mut enumerate map zip rev skip take chain filter cloned copied sorted_by_key sorted_by range".split())

def base(v):
    """the object a handle term designates"""
    while v[0] in ("fld", "pay", "dc") or (v[0] == "app" and v[1] in ("elem", "upd", "updelem")):
        if v[0] == "app":
            return v if v[1] == "elem" else base(v[2])
        return v
    return v
def handle(v):
    return v[0] in ("sym", "ext", "fld", "pay", "app", "dc", "out")
def boolean(d):
    return d[0] in ("lt", "eq", "not", "bool", "fld", "ext", "app", "sym", "pay")
def neg(c):
    return ("bool", not c[1]) if c[0] == "bool" else c[1] if c[0] == "not" else ("not", c)
def lt(a, b):
    """a < b, every integer comparison of the same two quantities in one form"""
    d = linear("Sub", a, b)
    if d[0] == "int":
        return ("bool", d[1] < 0)
    p = dict(d[1]) if d[0] == "sum" else {d: 1}
    flip = p[min((k for k in p if k is not None), key=repr)] < 0
    if flip:
        # a < b  iff  not (b - a - 1 < 0)
        p = {k: -c for k, c in p.items()}
        p[None] = p.get(None, 0) - 1
    side = lambda s: mksum({k: c * s for k, c in p.items() if c * s > 0})
    c = ("lt", side(1), side(-1))
    return ("not", c) if flip else c
def mksum(p):
    p = {k: c for k, c in p.items() if c}
    if not p:
        return num(0)
    if set(p) == {None}:
        return num(p[None])
    if len(p) == 1 and list(p.values()) == [1]:
        return next(iter(p))
    return ("sum", tuple(sorted(p.items(), key=repr)))
def linear(op, a, b):
    """sums of terms, as a sorted list with integer coefficients"""
    def parts(x):
        if x[0] == "int":
            return {None: x[1]}
        if x[0] == "sum":
            return dict(x[1])
        return {x: 1}
    r = parts(a)
    for k, c in parts(b).items():
        r[k] = r.get(k, 0) + (c if op == "Add" else -c)
    return mksum(r)

# ---------------------------------------------------------------------- models of library functions
MODELS = {}
def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d
def isres(a):
    return any(isinstance(x, tuple) and x[0] == "adt" and x[1] == RES for x in a[:1])
def kind_of(P, fr, st, v, a, p):
    """'opt' or 'res' for the receiver"""
    v = P.load(st, v)
    if v[0] == "agg":
        if v[1] in (OPT, RES):
            return "opt" if v[1] == OPT else "res"
    if p.startswith("Option"):
        return "opt"
    if p.startswith("Result"):
        return "res"
    for x in a[:1]:
        if isinstance(x, tuple) and x[0] == "adt":
            if x[1] == OPT:
                return "opt"
            if x[1] == RES:
                return "res"
    return None
def split(P, fr, st, v, a, p):
    """[(state, ok?, payload, value)]"""
    k = kind_of(P, fr, st, v, a, p)
    good = 1 if k == "opt" else 0
    out = []
    for s, var, x in P.variants(st, v):
        out.append((s, var == good, P.payload(x, var) if not (k == "opt" and var == 0) else UNIT, k))
    return out
def bad(k, e):
    return NONE if k == "opt" else errv(e)
def good(k, x):
    return some(x) if k == "opt" else okv(x)
@model("Try::branch")
def _(P, fr, st, a, args, loc, p):
    k = kind_of(P, fr, st, args[0], a, p)
    if k is None:
        # Poll<Result<..>> and the like
        return NotImplemented
    out = []
    for s, isgood, x, k in split(P, fr, st, args[0], a, p):
        out.append(Out("ret", s, agg(CF, 0, x) if isgood else agg(CF, 1, bad(k, x))))
    return out
@model("Try::from_output")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, some(args[0]) if a and a[0][0] == "adt" and a[0][1] == OPT else okv(args[0]))]
@model("FromResidual::from_residual")
def _(P, fr, st, a, args, loc, p):
    v = P.load(st, args[0])
    return [Out("ret", st, v)]
@model("Result::map_err", "Context::context", "Context::with_context", "WrapErr::wrap_err", "WrapErr::wrap_err_with", "WrapErr::context", "WrapErr::with_context", "Option::ok_or", "Option::ok_or_else", "ContextCompat::context", "ContextCompat::with_context",
       "ContextCompat::wrap_err", "OptionExt::ok_or_eyre", "ContextCompat::wrap_err_with")
def _(P, fr, st, a, args, loc, p):
    k = kind_of(P, fr, st, args[0], a, p)
    if k is None:
        return NotImplemented
    return [Out("ret", s, okv(x) if g else errv(x if k == "res" else ("sym", "error"))) for s, g, x, k in split(P, fr, st, args[0], a, p)]
@model("Result::ok", "Result::err", "Result::is_ok", "Result::is_err", "Option::is_some", "Option::is_none")
def _(P, fr, st, a, args, loc, p):
    n = p.split("::")[-1]
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        v = {"ok": lambda: some(x) if g else NONE, "err": lambda: NONE if g else some(x), "is_ok": lambda: ("bool", g), "is_err": lambda: ("bool", not g),
             "is_some": lambda: ("bool", g), "is_none": lambda: ("bool", not g)}[n]()
        out.append(Out("ret", s, v))
    return out
@model("Result::unwrap", "Result::expect", "Option::unwrap", "Option::expect", "Result::unwrap_err", "Result::expect_err")
def _(P, fr, st, a, args, loc, p):
    n = p.split("::")[-1]
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        if g != n.endswith("_err"):
            out.append(Out("ret", s, x))
        else:
            out.append(Out("panic", s, P.full(s, args[0]), "%s at %s" % (p, loc)))
    return out
@model("Result::unwrap_or", "Option::unwrap_or")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", s, x if g else args[1]) for s, g, x, k in split(P, fr, st, args[0], a, p)]
@model("Result::unwrap_or_default", "Option::unwrap_or_default")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", s, x if g else ("app", "default")) for s, g, x, k in split(P, fr, st, args[0], a, p)]
@model("Result::unwrap_or_else", "Option::unwrap_or_else")
def _(P, fr, st, a, args, loc, p):
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        if g:
            out.append(Out("ret", s, x))
        else:
            out += P.call_val(fr, s, args[1], [x] if k == "res" else [], loc)
    return out
@model("Result::map", "Option::map", "Result::and_then", "Option::and_then")
def _(P, fr, st, a, args, loc, p):
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        if not g:
            out.append(Out("ret", s, bad(k, x)))
            continue
        for o in P.call_val(fr, s, args[1], [x], loc):
            out.append(Out("ret", o.st, good(k, o.v) if p.endswith("map") else o.v) if o.kind == "ret" else o)
    return out
@model("Result::or_else", "Option::or_else")
def _(P, fr, st, a, args, loc, p):
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        if g:
            out.append(Out("ret", s, good(k, x)))
        else:
            out += P.call_val(fr, s, args[1], [x] if k == "res" else [], loc)
    return out
@model("Option::filter")
def _(P, fr, st, a, args, loc, p):
    out = []
    for s, g, x, k in split(P, fr, st, args[0], a, p):
        if not g:
            out.append(Out("ret", s, NONE))
            continue
        for o in P.call_val(fr, s, args[1], [x], loc):
            if o.kind != "ret":
                out.append(o)
                continue
            c = P.full(o.st, o.v)
            d = P.decide(o.st, c)
            for t in (True, False):
                if d is not None and d != t:
                    continue
                s2 = o.st.copy()
                P.assume(s2, c, t)
                out.append(Out("ret", s2, some(x) if t else NONE))
    return out
@model("Option::take")
def _(P, fr, st, a, args, loc, p):
    r = args[0]
    if r[0] == "ref":
        v = P.load1(st, r)
        if v[0] == "ref":
            v = P.load(st, v)
        P.assign(st, ("ref", r[1], ()), r[2], NONE)
        return [Out("ret", st, v)]
    return NotImplemented
@model("mem::take", "mem::replace")
def _(P, fr, st, a, args, loc, p):
    r = args[0]
    if r[0] == "ref":
        v = P.load1(st, r)
        P.assign(st, ("ref", r[1], ()), r[2], args[1] if len(args) > 1 else ("app", "default"))
        return [Out("ret", st, v)]
    return NotImplemented
@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::copied", "Option::cloned", "Option::as_deref", "Poll::map_id")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, P.load(st, args[0]))]
@model("Ord::cmp")
def _(P, fr, st, a, args, loc, p):
    x, y = P.full(st, args[0]), P.full(st, args[1])
    return [Out("ret", st, ("cmp", x, y))]
@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "PartialEq::eq", "PartialEq::ne")
def _(P, fr, st, a, args, loc, p):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}[p.split("::")[-1]]
    return [Out("ret", st, P.binop(st, op, P.full(st, args[0]), P.full(st, args[1])))]
@model("Not::not")
def _(P, fr, st, a, args, loc, p):
    x = P.full(st, args[0])
    return [Out("ret", st, ("bool", not x[1]) if x[0] == "bool" else ("not", x))]
@model("Future::poll", "*::poll_unpin", "*::poll")
def _(P, fr, st, a, args, loc, p):
    v = P.load(st, args[0])
    if v[0] == "agg" and str(v[1]).endswith("::Pin"):
        v = P.load(st, v[3][0])
    t = P.destty
    P.awty = t[2][0] if t is not None and t[0] == "adt" and t[1] == POLL else None
    out = []
    for o in P.await_(fr, st, v, loc):
        out.append(Out("ret", o.st, agg(POLL, 0, o.v)) if o.kind == "ret" else o)
    return out
@model("Pin::new", "Pin::new_unchecked", "Pin::as_mut", "Pin::get_mut", "Pin::get_unchecked_mut", "Box::pin", "Box::new", "Arc::new", "Rc::new", "Arc::clone", "future::get_context", "Pin::map_unchecked_mut",
       "IntoFuture::into_future", "From::from", "Into::into", "mem::drop_id", "Pin::set_id", "Wrapping::from")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, args[0])]
@model("mem::drop", "mem::forget")
def _(P, fr, st, a, args, loc, p):
    P.emit(st, "drop", (P.full(st, args[0]),), UNIT, loc, a, fr)
    return [Out("ret", st, UNIT)]
@model("time::timeout", "timeout::timeout", "*::timeout")
def _(P, fr, st, a, args, loc, p):
    if len(args) != 2:
        return NotImplemented
    return [Out("ret", st, agg("timeout", 0, args[0], args[1]))]
@model("poll_fn::poll_fn", "future::poll_fn", "*::poll_fn")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, agg("poll_fn", 0, args[0]))]
@model("Handle::block_on", "Runtime::block_on")
def _(P, fr, st, a, args, loc, p):
    P.awty = P.destty
    return P.await_(fr, st, args[1], loc)
@model("Iterator::next", "*::next_id")
def _(P, fr, st, a, args, loc, p):
    it = P.full(st, args[0])
    r0 = (id(fr), loc, len(st.ev), fr.fn.key)
    e = P.emit(st, "next", (it,), None, loc, a, fr)
    P.bump(st, it)
    d = ("disc", e.res)
    s1, s2 = st.copy(), st
    s1.facts[d], s2.facts[d] = 1, 0
    if lazy(it):
        outs = [Out("ret", s2, NONE)]
        for o in elements(P, fr, s1, it, ("ext", e.i, "next"), loc):
            outs.append(o if o.kind != "ret" else Out("loop", o.st, None, r0) if o.v is None else Out("ret", o.st, some(o.v)))
        return outs
    v = element(it, ("ext", e.i, "next"))
    return [Out("ret", s1, some(v)), Out("ret", s2, NONE)]
def element(it, n):
    """the n-th item of an iterator term"""
    if it[0] == "app":
        k = it[1]
        if k == "enumerate":
            return agg("tup", 0, ("app", "index", n, it[2]), element(it[2], n))
        if k in ("iter", "into_iter", "iter_mut", "cloned", "copied", "skip", "take"):
            if it[2][0] == "app" and it[2][1] in ITERS:
                return element(it[2], n)
            return ("app", "item", it[2], n)
        if k == "zip":
            return agg("tup", 0, element(it[2], n), element(it[3], n))
        if k == "rev":
            return element(it[2], n)
    if it[0] == "agg" and str(it[1]).endswith("Range") and len(it[3]) == 2:
        return ("app", "within", it[3][0], it[3][1], n)
    return ("app", "item", it, n)
@model("IntoIterator::into_iter")
def _(P, fr, st, a, args, loc, p):
    v = P.full(st, args[0])
    if v[0] == "app" and v[1] in ITERS or v[0] == "agg" and (str(v[1]).endswith("Range")):
        return [Out("ret", st, v)]
    return [Out("ret", st, ("app", "iter", v))]
@model("thread::spawn", "spawn::spawn", "task::spawn", "*::spawn", "*::spawn_blocking")
def _(P, fr, st, a, args, loc, p):
    e = P.emit(st, "spawn", tuple(args[-1:]), None, loc, a, fr, p)
    return [Out("ret", st, e.res)]
@model("scoped::scope", "thread::scope", "*::scope")
def _(P, fr, st, a, args, loc, p):
    return P.call_val(fr, st, args[-1], [("sym", "scope")], loc)
@model("Option::insert_id")
def _(P, fr, st, a, args, loc, p):
    return NotImplemented
@model("Instant::now", "SystemTime::now", "Instant::elapsed")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, P.fresh("time"))]
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(P, fr, st, a, args, loc, p):
    x = P.load(st, args[1]) if len(args) > 1 else UNIT
    return P.call_val(fr, st, args[0], list(x[3]) if x[0] == "agg" else [x], loc)

@model("array::from_fn")
def _(P, fr, st, a, args, loc, p):
    outs = []
    for o in P.call_val(fr, st, args[0], [("sym", "index")], loc):
        if o.kind != "ret":
            outs.append(o)
            continue
        e = P.emit(o.st, "from_fn", (P.full(o.st, o.v),), None, loc, a, fr)
        outs.append(Out("ret", o.st, e.res))
    return outs
def elements(P, fr, st, it, n, loc):
    """[Out] giving an item of an iterator: v is None where the adaptor drops it"""
    if it[0] == "app" and it[1] in ("map", "inspect", "filter", "filter_map", "flat_map") and len(it) > 3 and it[3][0] in ("clo", "fnv"):
        outs = []
        for o in elements(P, fr, st, it[2], n, loc):
            if o.kind != "ret" or o.v is None:
                outs.append(o)
                continue
            for q in P.call_val(fr, o.st, it[3], [o.v], loc):
                if q.kind != "ret":
                    outs.append(q)
                elif it[1] == "map":
                    outs.append(q)
                elif it[1] == "inspect":
                    outs.append(Out("ret", q.st, o.v))
                elif it[1] == "filter":
                    c = P.full(q.st, q.v)
                    d = P.decide(q.st, c)
                    for t in (True, False):
                        if d is None or d == t:
                            s2 = q.st.copy()
                            P.assume(s2, c, t)
                            outs.append(Out("ret", s2, o.v if t else None))
                elif it[1] == "filter_map":
                    for s2, var, x in P.variants(q.st, q.v):
                        outs.append(Out("ret", s2, P.payload(x, var) if var == 1 else None))
                else:
                    outs.append(Out("ret", q.st, ("app", "item", P.full(q.st, q.v), n)))
        return outs
    if it[0] == "app" and it[1] in ("enumerate", "zip", "rev", "cloned", "copied", "skip", "take", "peekable", "iter", "into_iter", "iter_mut") and it[2][0] == "app" and it[2][1] in ITERS | {"map", "filter", "filter_map", "inspect", "flat_map"}:
        outs = []
        for o in elements(P, fr, st, it[2], n, loc):
            if o.kind == "ret" and o.v is not None:
                if it[1] == "enumerate":
                    o = Out("ret", o.st, agg("tup", 0, ("app", "index", n, it[2]), o.v))
                elif it[1] == "zip":
                    o = Out("ret", o.st, agg("tup", 0, o.v, element(it[3], n)))
            outs.append(o)
        return outs
    return [Out("ret", st, element(it, n))]
def lazy(it):
    return any(x and x[0] == "app" and x[1] in ("map", "filter", "filter_map", "inspect", "flat_map") and len(x) > 3 and x[3][0] in ("clo", "fnv") for x in subterms(it))
@model("Iterator::for_each", "Iterator::try_for_each", "Iterator::collect", "ParallelIterator::for_each", "ParallelIterator::collect", "Itertools::collect_vec")
def _(P, fr, st, a, args, loc, p):
    name = p.split("::")[-1]
    it = P.full(st, args[0])
    if name.startswith("collect") and not lazy(it):
        return NotImplemented
    dest = P.destty
    if name.startswith("collect") and not P.effects(it):
        return NotImplemented
    r0 = (id(fr), loc, len(st.ev), fr.fn.key)
    e = P.emit(st, "next", (it,), None, loc, a, fr)
    P.bump(st, it)
    s1, s2 = st.copy(), st
    s1.facts[("disc", e.res)], s2.facts[("disc", e.res)] = 1, 0
    fallible = name == "try_for_each" or dest is not None and dest[0] == "adt" and dest[1] == RES
    done = UNIT
    if name.startswith("collect"):
        done = P.obs(s2, "collect", (it,))
    outs = [Out("ret", s2, okv(done) if fallible else done)]
    for o in elements(P, fr, s1, it, ("ext", e.i, "next"), loc):
        if o.kind != "ret":
            outs.append(o)
            continue
        if o.v is None:
            outs.append(Out("loop", o.st, None, r0))
            continue
        qs = P.call_val(fr, o.st, args[1], [o.v], loc) if name.endswith("for_each") else [o]
        for q in qs:
            if q.kind != "ret" or not fallible:
                outs.append(Out("loop", q.st, None, r0) if q.kind == "ret" else q)
                continue
            for s3, var, x in P.variants(q.st, q.v):
                outs.append(Out("loop", s3, None, r0) if var == 0 else Out("ret", s3, errv(P.payload(x, 1))))
    return outs

@model("eyre::Ok", "anyhow::Ok")
def _(P, fr, st, a, args, loc, p):
    return [Out("ret", st, okv(args[0]))]
