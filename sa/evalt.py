"""Random interpretation of normal-form terms: every opaque atom is mapped to a pseudo-random point of a prime field, a term to the
value it denotes there.  Two terms whose normal forms differ are only reported as different when their interpretations differ too, so an
incomplete normaliser cannot produce an alarm."""
import hashlib
from . import terms as t
from .terms import T

P = 2305842979148922881      # 536870905 * 2^32 + 1: a prime with subgroups of every size 2^k, k <= 32
HALF = P >> 1

# functions of other crates met by the interpreter that nothing is known about, and those of them a verdict has depended on
EXTERNALS, UNMODELLED = set(), set()
OPAQUE_OK = {"PrimeGroup::generator", "verifier::prepare_verifying_key", "verifier::verify_proof", "panicking::panic_fmt"}
class Undecided(Exception):
    pass
class NeedValue(Exception):
    """a joint interpretation needs a value of another party first"""

def h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") % P

class O:
    """opaque value: numeric, boolean, sequence and record at once"""
    __slots__ = ("h", "org", "E", "_n", "kids")
    def __init__(self, E, hh, org):
        self.E, self.h, self.org, self._n = E, hh, org, None
        self.kids = {}
    def child(self, kind, k, name=None):
        kk = (kind, k if type(k) is int else self.E.dig(k))
        r = self.kids.get(kk)
        if r is None:
            org = (kind, self, k, name)
            r = self.E.named(org)
            if r is None:
                r = O(self.E, h("child", self.h, kk), org)
            self.kids[kk] = r
        return r
    def path(self):
        k = self.org[0]
        if k == "sym":
            return self.org[1]
        if k == "fld":
            return self.org[1].path() + "." + str(self.org[3] if self.org[3] is not None else self.org[2])
        if k == "idx":
            return self.org[1].path() + "[]"
        if k == "app":
            return self.org[1] + "()"
        return k + "(" + (self.org[1].path() if len(self.org) > 1 and isinstance(self.org[1], O) else "") + ")"
    def fpath(self):
        """path with indices"""
        k = self.org[0]
        if k == "sym":
            return self.org[1]
        if k == "fld":
            return self.org[1].fpath() + "." + str(self.org[3] if self.org[3] is not None else self.org[2])
        if k == "idx":
            return self.org[1].fpath() + "[%s]" % (self.org[2],)
        return self.path()
    def __repr__(self):
        return "<%s>" % self.path()

class Agg:
    __slots__ = ("key", "var", "f")
    def __init__(self, key, var, f):
        self.key, self.var, self.f = key, var, f
    def __repr__(self):
        return "%s#%d%s" % (self.key.split("::")[-1], self.var, self.f)

class Lazy:
    """infinite sequence with overwritten places"""
    __slots__ = ("f", "over", "c")
    def __init__(self, f, over=None):
        self.f, self.over, self.c = f, over or {}, {}
    def get(self, i):
        if i in self.over:
            return self.over[i]
        if i not in self.c:
            self.c[i] = self.f(i)
        return self.c[i]

class Env:
    """seed: salt of the interpretation; vals: path -> value; lens: path -> length; deflen; booleans: function(O) -> bool | None"""
    def __init__(self, seed=0, vals=None, lens=None, deflen=3, bools=None, lenfn=None, appfn=None):
        self.seed, self.vals, self.lens, self.deflen = seed, vals or {}, lens or {}, deflen
        self.bools, self.lenfn, self.appfn = bools, lenfn, appfn or {}
        self.syms, self.nums, self.memo, self.fbv, self.keep = {}, {}, {}, {}, []
        self.steps = 0

    # ------------------------------------------------ opaque values
    def named(self, org):
        if not self.vals:
            return None
        k = org[0]
        if k == "fld":
            p = org[1].fpath() + "." + str(org[3] if org[3] is not None else org[2])
        elif k == "idx":
            p = org[1].fpath() + "[%s]" % (org[2],)
        else:
            return None
        return self.vals.get(p)
    def sym(self, name):
        if name in self.vals:
            return self.vals[name]
        r = self.syms.get(name)
        if r is None and name.startswith("ghost pairs ") and "ghost pairs" in self.vals:
            return self.vals["ghost pairs"]
        if r is None:
            r = self.syms[name] = O(self, h("sym", name, self.seed), ("sym", name))
        return r
    def opaque(self, name, args):
        hh = h("app", name, self.seed, tuple(self.dig(a) for a in args))
        r = self.syms.get(("app", hh))
        if r is None:
            r = self.syms[("app", hh)] = O(self, hh, ("app", name, args))
        return r
    def num(self, v):
        if type(v) is int:
            return v
        if type(v) is bool:
            return int(v)
        if type(v) is str:
            return h("s", v) % P
        if isinstance(v, O):
            if v._n is None:
                v._n = v.h % P
                self.nums[v._n] = v.h
            return v._n
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.num(v.f[0])
        if isinstance(v, Agg):
            # linear structure of records: weighted sum
            return sum(self.num(x) * h("w", i) for i, x in enumerate(v.f)) % P
        if isinstance(v, list):
            return sum(self.num(x) * h("w", i) for i, x in enumerate(v)) % P
        raise Undecided("number of %r" % (v,))
    def sint(self, v):
        n = self.num(v) % P
        return n - P if n > HALF else n
    def size(self, v):
        n = self.sint(v)
        if abs(n) > 1 << 20:
            raise Undecided("unbounded size %r" % (v,))
        return n
    def bool(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, O):
            if self.bools:
                r = self.bools(v)
                if r is not None:
                    return r
            return bool(v.h & 1)
        if type(v) is int:
            return v != 0
        raise Undecided("truth of %r" % (v,))
    def len(self, v):
        if isinstance(v, list) or type(v) is str:
            return len(v)
        if isinstance(v, O):
            if self.lenfn:
                r = self.lenfn(v)
                if r is not None:
                    return r
            p = v.fpath()
            if p in self.lens:
                return self.lens[p]
            p = v.path()
            if p in self.lens:
                return self.lens[p]
            return self.deflen
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.len(v.f[0])
        raise Undecided("length of %r" % (v,))
    def seq(self, v):
        if isinstance(v, list):
            return v
        if type(v) is str:
            return list(v.encode())
        if isinstance(v, O):
            return [v.child("idx", i) for i in range(self.len(v))]
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.seq(v.f[0])
        raise Undecided("elements of %r" % (v,))
    def bot(self):
        return self.sym("⊥")

    # ------------------------------------------------ digests
    def dig(self, v):
        if isinstance(v, O):
            return v.h
        if v is True or v is False:
            return h("b", v)
        if type(v) is int:
            v %= P
            return self.nums.get(v) or h("n", v)
        if isinstance(v, list):
            if v and isinstance(v[0], O) and v[0].org[0] == "idx":
                p = v[0].org[1]
                if all(isinstance(x, O) and x.org[0] == "idx" and x.org[1] is p and x.org[2] == i for i, x in enumerate(v)) and self.len(p) == len(v):
                    return p.h
            return h("l", tuple(self.dig(x) for x in v))
        if isinstance(v, Agg):
            if v.f and isinstance(v.f[0], O) and v.f[0].org[0] == "fld":
                p = v.f[0].org[1]
                if all(isinstance(x, O) and x.org[0] == "fld" and x.org[1] is p and x.org[2] == i for i, x in enumerate(v.f)):
                    return p.h
            return h("a", v.key, v.var, tuple(self.dig(x) for x in v.f))
        if isinstance(v, Lazy):
            return h("lazy", tuple(sorted((k, self.dig(x)) for k, x in v.over.items())))
        if v is None:
            return h("none")
        if type(v) in (str, bytes):
            return h("s", v)
        if type(v) is tuple:
            return h("t", tuple(self.dig(x) for x in v))
        raise Undecided("digest of %r" % (v,))

    # ------------------------------------------------ evaluation
    def free(self, x):
        """levels of bound variables free in x"""
        r = self.fbv.get(x)
        if r is None:
            r = set()
            if x.op in ("bv", "ba"):
                r.add((x.op, x.args[0]))
            else:
                self._fa(x.args, r)
                if x.op in t.BINDERS:
                    L = x.args[1].lvl + 1
                    inner = self.free(x.args[1]) - {("bv", L), ("ba", L)}
                    r = set(inner)
                    for k, y in enumerate(x.args):
                        if k != 1 and type(y) is T:
                            r |= self.free(y)
            if x.fv:
                r |= {("v", y) for y in x.fv}
            r = self.fbv[x] = frozenset(r)
        return r
    def _fa(self, a, r):
        for y in a:
            if type(y) is T:
                r |= self.free(y)
            elif type(y) is tuple:
                self._fa(y, r)

    def ev(self, x, b=None):
        b = b or {}
        f = self.free(x)
        key = None
        if not f:
            key = x
        else:
            try:
                key = (x,) + tuple((k, b[k] if type(b.get(k)) is int else id(b[k])) for k in sorted(f, key=lambda q: (q[0], q[1] if type(q[1]) is int else q[1].uid)))
            except KeyError:
                raise Undecided("free variable %s" % (f,))
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 3000000:
                raise Undecided("term too large")
            r = self.ev1(x, b)
            self.memo[key] = r
            if f:
                self.keep.append([b.get(k) for k in f])
        return r

    def index(self, v, i):
        if isinstance(v, list):
            i = self.size(i)
            if 0 <= i < len(v):
                return v[i]
            return self.bot()
        if isinstance(v, Lazy):
            return v.get(self.size(i))
        if isinstance(v, O):
            n = self.num(i) % P
            return v.child("idx", n if n <= HALF else n)
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.index(v.f[0], i)
        if type(v) is str:
            return self.index(self.seq(v), i)
        raise Undecided("index of %r" % (v,))

    def fld(self, v, i, name):
        if isinstance(v, Agg):
            return v.f[i] if i < len(v.f) else self.bot()
        if isinstance(v, O):
            return v.child("fld", i, name)
        if type(v) is int:
            return self.opaque("field%d" % i, [v])
        if isinstance(v, list) and name == "coeffs":
            return v        # a dense polynomial given by its coefficients
        raise Undecided("field %s of %s" % (name if name is not None else i, str(v)[:80]))

    def ev1(self, x, b):
        o, a = x.op, x.args
        E = lambda y: self.ev(y, b)
        if o == "poly":
            s = 0
            for m, c in a[0]:
                p = c
                if len(m) > 1:
                    # gates first: what a closed gate multiplies is not looked at
                    if any(y.op == "ind" and not self.bool(E(y.args[0])) for y, e in m):
                        continue
                for y, e in m:
                    if y.op == "ind":
                        p = p if self.bool(E(y.args[0])) else 0
                        continue
                    w = self.num(E(y))
                    p = p * (pow(w, e, P) if e >= 0 else self.inv(w, -e)) % P
                s += p
            s %= P
            return s if s <= HALF else s - P if s > P - (1 << 24) else s
        if o == "sym":
            return self.sym(a[0])
        if o == "bool":
            return a[0]
        if o == "iv" or o == "phi":
            return b[("v", x)]
        if o in ("bv", "ba"):
            return b[(o, a[0])]
        if o == "ite":
            return E(a[1]) if self.bool(E(a[0])) else E(a[2])
        if o == "ind":
            return 1 if self.bool(E(a[0])) else 0
        if o == "ge0":
            return self.sint(E(a[0])) >= 0
        if o == "eq0":
            return self.num(E(a[0])) % P == 0
        if o == "eq":
            return self.dig(E(a[0])) == self.dig(E(a[1]))
        if o == "not":
            return not self.bool(E(a[0]))
        if o == "and":
            return all(self.bool(E(y)) for y in a[0])
        if o == "or":
            return any(self.bool(E(y)) for y in a[0])
        if o == "lit":
            return [E(y) for y in a[0]]
        if o == "str":
            return a[0]
        if o == "agg":
            return Agg(a[0], a[1], [E(y) for y in a[2]])
        if o == "len":
            return self.len(E(a[0]))
        if o == "idx":
            return self.index(E(a[0]), E(a[1]))
        if o == "fld":
            return self.fld(E(a[0]), a[1], a[2])
        if o == "updf":
            v = E(a[0])
            if isinstance(v, Agg):
                f = list(v.f)
                f[a[1]] = E(a[3])
                return Agg(v.key, v.var, f)
            if isinstance(v, list) and a[1] == 0 and a[2] is not None:
                return E(a[3])
            return self.opaque("updf%d" % a[1], [v, E(a[3])])
        if o == "upd":
            v, i = E(a[0]), self.size(E(a[1]))
            if isinstance(v, Lazy):
                return Lazy(v.f, {**v.over, i: E(a[2])})
            v = list(self.seq(v))
            if 0 <= i < len(v):
                v[i] = E(a[2])
            # a write outside the bounds is a panic of its own; what remains here is the branch of a gated write that is not taken
            return v
        if o == "cat":
            r = []
            for y in a[0]:
                r.extend(self.seq(E(y)))
            return r
        if o == "min":
            return min(self.size(E(y)) for y in a[0] if y.op != "inf")
        if o == "xor":
            r = 0
            for y in a[0]:
                r ^= self.num(E(y)) % P
            return r
        if o == "band":
            r = -1
            for y in a[0]:
                r &= self.num(E(y)) % P
            return r
        if o == "inv":
            return self.inv(self.num(E(a[0])), 1)
        if o == "pow":
            w, e = self.num(E(a[0])), self.sint(E(a[1]))
            if abs(e) > 1 << 40:
                return self.opaque("pow", [w, e])
            return pow(w, e, P) if e >= 0 else self.inv(w, -e)
        if o == "idiv":
            q = self.sint(E(a[1]))
            if q == 0:
                return self.bot()
            return self.sint(E(a[0])) // q
        if o == "irem":
            q = self.sint(E(a[1]))
            if q == 0:
                return self.bot()
            return self.sint(E(a[0])) % q
        if o == "tri":
            n = self.size(E(a[0]))
            return n * (n - 1) // 2
        if o in t.BINDERS:
            L = a[1].lvl + 1
            if a[0].op == "inf" and o == "arr":
                return Lazy(lambda i: self.ev(a[1], {**b, ("bv", L): i}))
            if o == "rec":
                acc = E(a[0])
                for i in range(max(0, self.size(E(a[2])))):
                    acc = self.ev(a[1], {**b, ("bv", L): i, ("ba", L): acc})
                return acc
            if o == "first":
                n = self.size(E(a[0])) if a[0].op != "inf" else 5000
                for i in range(max(0, n)):
                    if self.bool(self.ev(a[1], {**b, ("bv", L): i})):
                        return i
                if a[0].op == "inf":
                    raise Undecided("unbounded loop")
                return n
            n = max(0, self.size(E(a[0])))
            it = (self.ev(a[1], {**b, ("bv", L): i}) for i in range(n))
            if o == "arr":
                return list(it)
            if o == "sum":
                return sum(self.num(y) for y in it) % P
            if o == "prod":
                r = 1
                for y in it:
                    r = r * self.num(y) % P
                return r
            if o == "all":
                return all(self.bool(y) for y in it)
            if o == "flat":
                r = []
                for y in it:
                    r.extend(self.seq(y))
                return r
        if o == "disc":
            v = E(a[0])
            return v.var if isinstance(v, Agg) else self.opaque(o, [v])
        if o in ("issome", "isok"):
            v = E(a[0])
            if isinstance(v, Agg):
                return v.var == (1 if o == "issome" else 0)
            if isinstance(v, O):
                c = self.opaque(o, [v])
                if self.bools:
                    r = self.bools(c)
                    if r is not None:
                        return r
                return True
            raise Undecided(o)
        if o in ("some", "okv", "errv"):
            v = E(a[0])
            if isinstance(v, Agg) and v.f:
                return v.f[0]
            return v.child(o, 0) if isinstance(v, O) else self.opaque(o, [v])
        if o == "dc":
            v = E(a[0])
            if isinstance(v, Agg):
                return v
            return v
        if o == "iter":
            return self.seq(E(a[0]))[self.size(E(a[1])):]
        if o == "inf":
            return 1 << 30
        if o == "zst":
            return self.sym("zst:" + a[0])
        if o in ("bot", "uninit", "dcbad"):
            return self.bot()
        # everything else: uninterpreted
        name, args = o, []
        st = []
        for y in a:
            if type(y) is T:
                args.append(E(y))
            elif type(y) is tuple:
                args.append([E(z) if type(z) is T else str(z) for z in y])
            else:
                st.append(str(y))
        name = ":".join([o] + st) if o != "app" else ":".join(st)
        f = self.appfn.get(name)
        if f:
            r = f(self, args)
            if r is not None:
                return r
        if o == "app" and st and st[0].split("!")[0] in EXTERNALS:
            UNMODELLED.add(st[0].split("!")[0])
        return self.opaque(name, args)

    def inv(self, w, e):
        w %= P
        if w == 0:
            return 0
        return pow(pow(w, P - 2, P), e, P)

    # ------------------------------------------------ events
    def fails(self, evs, b=None, kinds=("err", "panic")):
        """first failing event under this interpretation -> (kind, detail, loc) | None"""
        b = b or {}
        for e in evs:
            k = e[0]
            if k == "fail":
                if self.bool(self.ev(e[1], b)):
                    return e[2], e[3], e[5]
            elif k == "alt":
                r = self.fails(e[2] if self.bool(self.ev(e[1], b)) else e[3], b)
                if r:
                    return r
            elif k == "loop":
                n = self.size(self.ev(e[1], b)) if e[1].op != "inf" else 0
                for i in range(max(0, n)):
                    r = self.fails(e[3], {**b, ("v", e[2]): i})
                    if r:
                        return r
        return None

    def trace(self, evs, b=None, out=None, kinds=("send", "recv")):
        """communication actions in order"""
        b = b or {}
        out = [] if out is None else out
        for e in evs:
            k = e[0]
            if k in kinds:
                out.append((k,) + tuple(self.ev(y, b) if type(y) is T else y for y in e[1:]))
            elif k == "fail":
                if self.bool(self.ev(e[1], b)):
                    self.trace(e[4], b, out, kinds)
                    return None
            elif k == "alt":
                if self.trace(e[2] if self.bool(self.ev(e[1], b)) else e[3], b, out, kinds) is None:
                    return None
            elif k == "loop":
                n = self.size(self.ev(e[1], b)) if e[1].op != "inf" else 0
                for i in range(max(0, n)):
                    if self.trace(e[3], {**b, ("v", e[2]): i}, out, kinds) is None:
                        return None
        return out
