"""Properties of the integer rings: bits, ring elements over Z_2^k, fixed-width integers, and their correspondence with prime fields."""
from .common import *

RING = "mpc_core::protocols::rep3_ring::ring::"
UINT = "mpc_core::uint::"
BINOPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "BitXor": "bitxor", "BitAnd": "bitand", "BitOr": "bitor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}
WRAP = {"WrappingAdd": ("wrapping_add", "Add"), "WrappingSub": ("wrapping_sub", "Sub"), "WrappingMul": ("wrapping_mul", "Mul")}
FN = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "BitXor": lambda x, y: x ^ y, "BitAnd": lambda x, y: x & y,
      "BitOr": lambda x, y: x | y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y, "Rem": lambda x, y: x % y}

def peel(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty
def tname(ty):
    if not ty:
        return None
    ty = peel(ty)
    return ty[1].split("::")[-1] if ty[0] == "adt" else str(ty[1]) if ty[0] == "p" else None
def leaf(v):
    while v.op == "agg":
        v = v.args[2][0]
    if v.op != "sym":
        raise Undecided("argument is no symbol: %s" % clip(v))
    return v.args[0]
def core(v):
    while isinstance(v, Agg):
        v = v.f[0]
    return v
def signed(n):
    n %= PRIME
    return n - PRIME if n > HALF_ else n
HALF_ = PRIME >> 1

def apps(K, extra=None):
    """what the operations of the underlying integers mean in the ring Z_2^K"""
    M_ = 1 << K
    n = lambda E, x: signed(E.num(x))
    two = lambda op: lambda E, a: op(n(E, a[0]), n(E, a[1])) % M_
    d = {"bitor": lambda E, a: n(E, a[0]) % M_ | n(E, a[1]) % M_, "bitnot": lambda E, a: (M_ - 1) ^ (n(E, a[0]) % M_),
         "const:IntRing2k::K": lambda E, a: K, "const:IntRing2k::BYTES": lambda E, a: K // 8,
         "from::from": lambda E, a: E.num(a[0]), "const:Uint::ZERO": lambda E, a: 0, "const:Uint::MAX": lambda E, a: M_ - 1,
         "cmp::is_zero": lambda E, a: n(E, a[0]) == 0,
         "bits::bit": lambda E, a: bool(n(E, a[0]) >> E.size(a[1]) & 1), "bits::bit_len": lambda E, a: n(E, a[0]).bit_length(),
         "bits::set_bit!0": lambda E, a: (n(E, a[0]) & ~(1 << E.size(a[1]))) | (int(bool(E.bool(a[2]))) << E.size(a[1])),
         "ilog2": lambda E, a: n(E, a[0]).bit_length() - 1}
    for pre in ("WrappingAdd", "WrappingSub", "WrappingMul", "WrappingNeg", "add", "mul", "num", "Uint"):
        d[pre + "::wrapping_add"] = two(lambda x, y: x + y)
        d[pre + "::wrapping_sub"] = two(lambda x, y: x - y)
        d[pre + "::wrapping_mul"] = two(lambda x, y: x * y)
        d[pre + "::saturating_add"] = lambda E, a: min(n(E, a[0]) % M_ + n(E, a[1]) % M_, M_ - 1)
        d[pre + "::saturating_sub"] = lambda E, a: max(n(E, a[0]) % M_ - n(E, a[1]) % M_, 0)
        d[pre + "::saturating_mul"] = lambda E, a: min((n(E, a[0]) % M_) * (n(E, a[1]) % M_), M_ - 1)
        d[pre + "::abs_diff"] = two(lambda x, y: abs(x % M_ - y % M_))
        d[pre + "::rotate_left"] = lambda E, a: (lambda x, y: (x << y | x >> (K - y)) % M_)(n(E, a[0]) % M_, E.size(a[1]) % K)
        d[pre + "::rotate_right"] = lambda E, a: (lambda x, y: (x >> y | x << (K - y)) % M_)(n(E, a[0]) % M_, E.size(a[1]) % K)
        d[pre + "::arithmetic_shr"] = lambda E, a: (lambda x, y: (x - (M_ if x >> (K - 1) else 0) >> y) % M_)(n(E, a[0]) % M_, E.size(a[1]))
        d[pre + "::wrapping_neg"] = lambda E, a: -n(E, a[0]) % M_
    d.update(extra or {})
    return d

class Kind:
    """how values of one of the types are read and written in an interpretation"""
    def __init__(self, name, Ks, isbit=False, wraps=False):
        self.name, self.Ks, self.isbit, self.wraps = name, Ks, isbit, wraps
    def domain(self, K):
        M_ = 1 << K
        return [0, 1] if self.isbit else sorted({0, 1, 2, 3, 5, M_ // 2 - 1, M_ // 2, M_ - 56 if M_ > 64 else 3, M_ - 1})
    def put(self, x):
        return bool(x) if self.isbit else x
    def get(self, E, v):
        v = core(v)
        if self.isbit:
            return int(bool(E.bool(v)))
        if isinstance(v, bool):
            return int(v)
        return signed(E.num(v))
KINDS = {"Bit": Kind("Bit", (1,), isbit=True), "RingElement": Kind("RingElement", (8, 16)), "RUint": Kind("RUint", (16, 24), wraps=True)}

def env(K, vals, extra=None):
    return Env(seed=K, vals=dict(vals, **{"const BITS": K, "const LIMBS": max(1, K // 8)}), bools=honest, appfn=apps(K, extra))

def operation(cx, f, base, kd, rhs_kind, assign, label):
    r = cx.run(f)
    got = r.after("#0") if assign else r.ret
    rule = "%s of %s is that of integers modulo 2^k" % (label, kd.name)
    if got is None:
        cx.bad(f, rule, "never returns")
        return
    A0, A1 = r.args["#0"], r.args.get("#1")
    shift = base in ("Shl", "Shr")
    def test():
        for K in kd.Ks:
            M_ = 1 << K
            ys = (list(range(0, K + 3)) if not kd.wraps else list(range(0, K))) if shift else kd.domain(K)
            for x in kd.domain(K):
                for y in ys:
                    if base in ("Div", "Rem") and y == 0:
                        continue
                    E = env(K, {leaf(A0): kd.put(x), leaf(A1): y if shift else (kd.put(y) if rhs_kind is kd or not kd.isbit else bool(y))})
                    g = kd.get(E, E.ev(got))
                    if base == "Div":
                        w, g = x * inv_(y) % PRIME, g % PRIME     # division is an operation of the underlying integers
                    else:
                        w = FN[base](x, y) % M_
                    if base == "Shl" and y < K or kd.wraps and base != "Div":
                        # the underlying operation drops the bits above the width
                        g %= M_
                    if g != w:
                        if g % M_ == w % M_:
                            return "%d and %d give %d, which is not reduced modulo 2^%d" % (x, y, g, K)
                        return "%d and %d give %d instead of %d modulo 2^%d" % (x, y, g, w, K)
        return None
    cx.decide(f, rule, test, "all pairs of representative values, widths %s" % (kd.Ks,))

def unary(cx, f, kd, want, rule, assign=False):
    r = cx.run(f)
    got = r.after("#0") if assign else r.ret
    def test():
        for K in kd.Ks:
            for x in kd.domain(K):
                E = env(K, {leaf(r.args["#0"]): kd.put(x)})
                g = kd.get(E, E.ev(got))
                w = want(x, K)
                if (g % (1 << K) if kd.wraps else g) != w:
                    return "%d gives %d instead of %d modulo 2^%d" % (x, g, w, K)
        return None
    if got is None:
        cx.bad(f, rule, "never returns")
    else:
        cx.decide(f, rule, test)

def ring_ops(cx, kind, least):
    """arithmetic, bit and shift operators of one type"""
    kd = KINDS[kind]
    seen = 0
    for im in cx.p.impls:
        if not im["trait"] or not im["crate"].startswith("mpc_core"):
            continue
        tr = im["trait"].split("::")[-1]
        lhs = im["targs"][0]
        if tname(lhs) != kind or peel(lhs) is not lhs and lhs[0] == "ref" and lhs[2]:
            continue
        rhs = im["targs"][1] if len(im["targs"]) > 1 else lhs
        it_ = {k: v[1] for k, v in im["items"].items()}
        base = tr[:-6] if tr.endswith("Assign") else tr
        def body(n):
            if it_.get(n) not in cx.p.fns:
                raise Missing(im["key"])
            return cx.fn(it_[n])
        if base in BINOPS:
            n = BINOPS[base] + ("_assign" if tr.endswith("Assign") else "")
            operation(cx, body(n), base, kd, KINDS.get(tname(rhs)), tr.endswith("Assign"), tr)
        elif tr in WRAP:
            operation(cx, body(WRAP[tr][0]), WRAP[tr][1], kd, kd, False, tr)
        elif tr in ("Neg", "WrappingNeg"):
            unary(cx, body("neg" if tr == "Neg" else "wrapping_neg"), kd, lambda x, K: -x % (1 << K), "negation of %s is that of integers modulo 2^k" % kind)
        elif tr == "Not":
            unary(cx, body("not"), kd, lambda x, K: (1 << K) - 1 - x, "complement of %s inverts every bit" % kind)
        elif tr in ("Zero", "One"):
            f = body(tr.lower())
            r = cx.run(f)
            def test(r=r, tr=tr):
                for K in kd.Ks:
                    E = env(K, {})
                    if kd.get(E, E.ev(r.ret)) != (tr == "One"):
                        return "is %s" % kd.get(E, E.ev(r.ret))
            cx.decide(f, "%s of %s" % (tr.lower(), kind), test)
            if tr == "Zero":
                f2 = body("is_zero")
                r2 = cx.run(f2)
                def test():
                    for K in kd.Ks:
                        for x in kd.domain(K):
                            E = env(K, {leaf(r2.args["#0"]): kd.put(x)})
                            if bool(E.bool(E.ev(r2.ret))) != (x == 0):
                                return "%d is %szero" % (x, "" if x else "not ")
                cx.decide(f2, "is_zero of %s holds for zero only" % kind, test)
        elif tr in ("PartialEq", "Ord", "PartialOrd") and "eq" in it_ or tr in ("Ord",):
            n = "eq" if tr == "PartialEq" else "cmp"
            f = body(n)
            r = cx.run(f)
            def test(r=r, n=n):
                for K in kd.Ks:
                    for x in kd.domain(K):
                        for y in kd.domain(K):
                            E = env(K, {leaf(r.args["#0"]): kd.put(x), leaf(r.args["#1"]): kd.put(y)})
                            v = E.ev(r.ret)
                            if n == "eq" and bool(E.bool(v)) != (x == y):
                                return "%d and %d are %sequal" % (x, y, "" if x != y else "not ")
                            if n == "cmp" and v.var != (x > y) - (x < y) + 1:
                                return "%d and %d are ordered the other way" % (x, y)
            cx.decide(f, "%s of %s is that of the integers" % (n, kind), test)
        else:
            continue
        seen += 1
    if seen < least:
        cx.bad("operators of " + kind, "operator impls of %s enumerated" % kind, "only %d found" % seen)

def U01(cx):
    """bits and ring elements compute in Z_2 and Z_2^k"""
    ring_ops(cx, "Bit", 26)
    ring_ops(cx, "RingElement", 34)
    # the trait's own in-place operations
    kd = Kind("the underlying integers", (8, 16))
    for n, b in (("wrapping_add_assign", "Add"), ("wrapping_sub_assign", "Sub"), ("wrapping_mul_assign", "Mul")):
        operation(cx, cx.fn(RING + "int_ring::IntRing2k::" + n), b, kd, kd, True, n)
    unary(cx, cx.fn(RING + "int_ring::IntRing2k::wrapping_neg_inplace"), kd, lambda x, K: -x % (1 << K), "wrapping_neg_inplace is negation modulo 2^k", True)
    f = cx.meth1("RingElement", "get_bit")
    r = cx.run(f)
    def test():
        for K in (8, 16):
            for x in kd.domain(K):
                for i in range(K):
                    E = env(K, {leaf(r.args["#0"]): x, "index": i})
                    if KINDS["RingElement"].get(E, E.ev(r.ret)) != x >> i & 1:
                        return "bit %d of %d is %s" % (i, x, KINDS["RingElement"].get(E, E.ev(r.ret)))
    cx.decide(f, "get_bit gives the bit at the index", test)
    # conversions keep the value
    for kind in ("Bit", "RingElement"):
        for n, w in (("convert", lambda a: field(a, 0, "0")), ):
            f = cx.meth1(kind, n)
            r = cx.run(f)
            cx.same(f, "%s of %s gives the value" % (n, kind), r.ret, field(r.args["#0"], 0, "0"), envs())
        for n in ("convert_slice_rev", "convert_vec_rev"):
            f = cx.meth1(kind, n)
            r = cx.run(f)
            s = r.args["#0"]
            cx.same(f, "%s of %s wraps every element, in order" % (n, kind), gen(length(r.ret), lambda i: field(idx(r.ret, i), 0, "0")), gen(length(s), lambda i: idx(s, i)), envs())
    n = 0
    for im in cx.p.impls:
        tr = (im["trait"] or "").split("::")[-1]
        if not im["crate"].startswith("mpc_core") or tr not in ("TryFrom", "AsPrimitive", "From", "TryInto"):
            continue
        if not im["targs"]:
            continue
        a, b = im["targs"][0], im["targs"][1] if len(im["targs"]) > 1 else None
        it_ = {k: v[1] for k, v in im["items"].items()}
        if tr == "TryFrom" and tname(a) == "Bit":
            f = cx.fn(it_["try_from"])
            r = cx.run(f)
            def test(r=r):
                for x in (0, 1, 2, 3, 128, 254, 255):
                    E = env(1, {leaf(r.args["#0"]): x})
                    S = System(r, [0], lambda _: E).go()
                    if bool(S.p[0].fail) != (x > 1):
                        return "%d is %s" % (x, "refused" if S.p[0].fail else "accepted as a bit")
                    if S.p[0].fail and S.p[0].fail[0] != "err":
                        return "%d makes it panic" % x
                    if x < 2 and KINDS["Bit"].get(E, okval(E, E.ev(r.ret))) != x:
                        return "%d becomes the other bit" % x
            cx.decide(f, "exactly 0 and 1 convert to a bit (from %s)" % tystr(b), test)
            n += 1
        elif tr == "AsPrimitive" and tname(b) == "Bit" and tname(a) not in ("Bit", "bool") and peel(a)[0] == "p":
            f = cx.fn(it_["as_"])
            r = cx.run(f)
            def test(r=r):
                for x in (0, 1, 2, 3, 6, 7, 128, 129, 254, 255):
                    E = env(8, {leaf(r.args["#0"]): x})
                    if KINDS["Bit"].get(E, E.ev(r.ret)) != x & 1:
                        return "%d becomes %d" % (x, 1 - (x & 1))
            cx.decide(f, "a cast to a bit keeps the least significant bit (from %s)" % tystr(a), test)
            n += 1
        elif tname(a) == "Bit" and (tr == "AsPrimitive" or tr == "TryInto") and peel(b)[0] == "p" or tr == "From" and b and tname(b) == "Bit":
            f = cx.fn(it_["as_" if tr == "AsPrimitive" else "from" if tr == "From" else "try_into"])
            r = cx.run(f)
            def test(r=r):
                for x in (False, True):
                    E = env(1, {leaf(r.args["#0"]): x})
                    v = core(okval(E, E.ev(r.ret))) if r.ret.op == "agg" else core(E.ev(r.ret))
                    g = int(v) if isinstance(v, bool) else int(E.num(v)) if not isinstance(v, O) or v.org[0] != "sym" else None
                    if g is None:
                        g = int(bool(E.bool(v)))
                    if g != int(x):
                        return "%d becomes %d" % (x, g)
            cx.decide(f, "a bit converts to the number it is (%s)" % tystr(a if tr == "From" else b), test)
            n += 1
    if n < 18:
        cx.bad(RING + "bit", "conversions of bits enumerated", "only %d found" % n)
    serial(cx)

# ---------------------------------------------------------------- serialised form
class Stream:
    """a writer that keeps what was written"""
    def __init__(self, data):
        self.data = data

def bytes_of(E, v):
    return [E.size(x) & 255 for x in E.seq(v)]
def serial(cx):
    """what is written has the declared number of bytes, and reading it gives the value back"""
    n = 0
    for im in cx.p.impls:
        tr = (im["trait"] or "").split("::")[-1]
        if tr != "IntRing2k" or not im["crate"].startswith("mpc_core"):
            continue
        ty = im["targs"][0]
        name = tname(ty)
        it_ = {k: v[1] for k, v in im["items"].items()}
        W_, R_ = cx.fn(it_["write"]), cx.fn(it_["from_reader"])
        w, r = cx.run(W_), cx.run(R_)
        kb = [cx.run(cx.fn(it_[c])).ret for c in ("K", "BYTES") if it_.get(c) in cx.p.fns and cx.p.fns[it_[c]].body]
        width = {"Bit": 1, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16}.get(name)
        for L in ((4, 5, 16) if name == "RUint" else (1,)):
            B = width or 8 * L
            def test():
                K = B * 8
                if name != "Bit" and len(kb) == 2:
                    E = Env(vals={"const LIMBS": L, "const BITS": 64 * L}, bools=honest)
                    k, b = E.size(E.ev(kb[0])), E.size(E.ev(kb[1]))
                    if k != K or b != B:
                        return "it declares %d bits and %d bytes" % (k, b)
                for x in ([0, 1] if name == "Bit" else [0, 1, 0x80, 3 << (8 * B - 4), int.from_bytes(bytes(range(1, B + 1)), "little"), (1 << 8 * B) - 1]):
                    log = []
                    limbs = [x >> 64 * i & (1 << 64) - 1 for i in range(L)]
                    def le(E, a, big=False):
                        v = a[0]
                        if isinstance(v, O) and v.org == ("limb",):
                            v = v.h
                        elif isinstance(v, O) and v.org[0] == "sym" and v.org[1] == "self":
                            v = x
                        else:
                            v = E.size(v)
                        return list(v.to_bytes(8 if name == "RUint" else B, "big" if big else "little"))
                    def wr(E, a):
                        log.append((a[0], bytes_of(E, a[1])))
                        return Agg(RES, 0, [Agg("tup", 0, [])])
                    def limbsf(E, a):
                        return [O(E, l, ("limb",)) for l in limbs]
                    ext = {"num::to_le_bytes": le, "num::to_be_bytes": lambda E, a: le(E, a, True), "Uint::as_limbs": limbsf, "UintBackend::as_limbs": limbsf,
                           "Write::write_all": wr, "Write::write_all!0": lambda E, a: Stream((a[0].data if isinstance(a[0], Stream) else []) + bytes_of(E, a[1]))}
                    E = Env(seed=3, vals={"const LIMBS": L, "const BITS": 64 * L, "self.0": bool(x)} if name == "Bit" else {"const LIMBS": L, "const BITS": 64 * L},
                            bools=lambda v: True, appfn=ext)
                    E.vals["writer"] = Stream([])
                    out = written(E, w.ev, log)
                    if len(out) != B:
                        return "%d bytes are written instead of %d" % (len(out), B)
                    # read it back
                    def frm(E, a, big=False):
                        return O(E, int.from_bytes(bytes(bytes_of(E, a[0])), "big" if big else "little"), ("limb",))
                    def avail(E, a):
                        return a[0].pos + len(E.seq(a[1])) <= len(a[0].data)
                    def rd1(E, a):
                        k = len(E.seq(a[1]))
                        return (a[0].data + [0] * k)[a[0].pos:][:k]
                    def rd0(E, a):
                        return Reader(a[0].data, a[0].pos + len(E.seq(a[1])))
                    for cut in (0, 1):
                        ext = {"num::from_le_bytes": frm, "num::from_be_bytes": lambda E, a: frm(E, a, True), "Read::read_exact!1": rd1, "Read::read_exact!0": rd0,
                               "Read::read_exact": lambda E, a: Agg(RES, 0 if avail(E, a) else 1, [Agg("tup", 0, [])]), "Uint::from_limbs": lambda E, a: ("limbs", [q.h for q in E.seq(a[0])])}
                        E = Env(seed=4, vals={"const LIMBS": L, "const BITS": 64 * L, "reader": Reader(out[:len(out) - cut], 0)}, bools=honest, appfn=ext)
                        S = failing(E, r.ev)
                        if cut:
                            if not S:
                                return "input that is too short is accepted"
                            if S[0] != "err":
                                return "input that is too short makes it panic"
                            continue
                        if S:
                            return "what was written is refused (%s)" % (S,)
                        v = core(okval(E, E.ev(r.ret)))
                        if name == "Bit":
                            if int(bool(E.bool(v))) != x:
                                return "the bit read is another than the one written"
                        elif name == "RUint":
                            if v[1] != limbs:
                                return "the limbs read are others than those written"
                        elif v.h != x:
                            return "the value read is another than the one written"
                return None
            cx.decide(W_, "%s%s is read back from what is written, which has the declared size; less is refused" % (name, " with %d limbs" % L if name == "RUint" else ""), test)
        n += 1
    if n < 7:
        cx.bad(RING + "int_ring", "impls of IntRing2k enumerated", "only %d found" % n)

class Reader:
    def __init__(self, data, pos):
        self.data, self.pos = data, pos
def failing(E, evs, b={}):
    """the first failure of the run, if any"""
    for e in evs:
        if e[0] == "fail":
            if E.bool(E.ev(e[1], b)):
                return e[2], e[5]
        elif e[0] == "alt":
            s = failing(E, e[2] if E.bool(E.ev(e[1], b)) else e[3], b)
            if s:
                return s
        elif e[0] == "loop":
            for i in range(E.size(E.ev(e[1], b))):
                s = failing(E, e[3], {**b, ("v", e[2]): i})
                if s:
                    return s
    return None
def written(E, evs, log):
    """everything the run writes to its writer: each write's success is asked for, in order"""
    if failing(E, evs):
        raise Undecided("a write fails")
    if not log:
        return []
    w, d = log[-1]
    return (w.data if isinstance(w, Stream) else []) + d

# ---------------------------------------------------------------- fixed-width integers
def nint(E, v):
    return int(v) if type(v) in (int, bool) else E.num(v)
class Limbs:
    """an integer given by its limbs"""
    def __init__(self, l):
        self.l = list(l)
def ints(E, v):
    return [x.h if isinstance(x, O) and x.org == ("limb",) else nint(E, x) for x in E.seq(v)]
def limb_apps(limbs):
    f = lambda E, a: list(limbs)
    return {"Uint::as_limbs": f, "UintBackend::as_limbs": f, "Uint::from_limbs": lambda E, a: Limbs(ints(E, a[0])), "UintBackend::from_limbs_truncating": lambda E, a: Limbs(ints(E, a[0])),
            "num::from_le_bytes": lambda E, a: int.from_bytes(bytes(x & 255 for x in ints(E, a[0])), "little"),
            "num::from_be_bytes": lambda E, a: int.from_bytes(bytes(x & 255 for x in ints(E, a[0])), "big"),
            "num::to_le_bytes": lambda E, a: list(nint(E, a[0]).to_bytes(8, "little")), "num::to_be_bytes": lambda E, a: list(nint(E, a[0]).to_bytes(8, "big")),
            "UintBackend::to_u64_truncating": lambda E, a: limbs[0],
            # limbs occupy different places
            "bitor": lambda E, a: (E.num(a[0]) + E.num(a[1])) % PRIME}
def lenv(L, limbs, vals=None, extra=None):
    d = apps(64 * L)
    d.update(limb_apps(limbs))
    d.update(extra or {})
    return Env(seed=L, vals=dict({"const BITS": 64 * L, "const LIMBS": L}, **(vals or {})), bools=honest, appfn=d)
def sample_limbs(L, s=1):
    return [1 + (hnum("limb", s, i) % (1 << 40)) for i in range(L)]

def U02(cx):
    """fixed-width integers, and their correspondence with prime fields"""
    ring_ops(cx, "RUint", 24)
    B = lambda n: cx.meth1("RUint", n, trait="UintBackend")
    # ------------------------------------------------------------ limbs and bytes
    f = B("from_limbs_truncating")
    r = cx.run(f)
    def test():
        for L in (1, 4, 5):
            for m in range(0, 8):
                limbs = sample_limbs(m)
                E = lenv(L, limbs, {leaf(r.args["#0"]): limbs})
                S = failing(E, r.ev)
                if S:
                    return "%d limbs make it fail for a width of %d limbs (%s)" % (m, L, S)
                v = core(E.ev(r.ret))
                if v.l != (limbs + [0] * L)[:L]:
                    return "of %d limbs, %s become the value of %d limbs" % (m, [limbs.index(x) if x in limbs else "zero" for x in v.l], L)
    cx.decide(f, "from_limbs_truncating keeps the low limbs and fills up with zeros", test, "0..7 limbs, widths 1, 4 and 5")
    f = B("as_limbs")
    r = cx.run(f)
    def test():
        E = lenv(4, sample_limbs(4))
        if ints(E, E.ev(r.ret)) != sample_limbs(4):
            return "gives other limbs"
    cx.decide(f, "as_limbs gives the limbs, the lowest first", test)
    f = B("from_le_bytes")
    r2 = cx.run(f)
    def test():
        for L in (1, 4):
            for m in (8 * L, 8 * L - 1, 8 * L + 8, 0):
                data = [hnum("by", i) & 255 for i in range(m)]
                E = lenv(L, [], {leaf(r2.args["#0"]): data})
                S = failing(E, r2.ev)
                if m != 8 * L:
                    if not S:
                        return "%d bytes are taken for %d limbs" % (m, L)
                    continue
                if S:
                    return "bytes of the right number are refused (%s)" % (S,)
                v = core(E.ev(r2.ret))
                if v.l != [int.from_bytes(bytes(data[8 * i:8 * i + 8]), "little") for i in range(L)]:
                    return "the limbs are not those of the bytes in little-endian order"
    cx.decide(f, "from_le_bytes reads the little-endian bytes, of exactly the width", test)
    f = B("to_le_bytes_into")
    r3 = cx.run(f)
    def test():
        for L in (1, 4):
            for m in (8 * L, 8 * L - 1, 8 * L + 8, 0):
                limbs = sample_limbs(L)
                E = lenv(L, limbs, {leaf(r3.args["#1"]): [170] * m})
                S = failing(E, r3.ev)
                if m != 8 * L:
                    if not S:
                        return "a buffer of %d bytes is accepted for %d limbs" % (m, L)
                    continue
                if S:
                    return "a buffer of the right size is refused (%s)" % (S,)
                out = ints(E, E.ev(r3.after("#1")))
                if out != [b for l in limbs for b in l.to_bytes(8, "little")]:
                    return "the bytes are not the little-endian bytes of the value"
    cx.decide(f, "to_le_bytes_into writes the little-endian bytes of the value, to a buffer of exactly the width", test)
    f = B("to_u64_truncating")
    r4 = cx.run(f)
    def test():
        E = lenv(4, sample_limbs(4))
        if nint(E, E.ev(r4.ret)) != sample_limbs(4)[0]:
            return "gives something else than the lowest limb"
    cx.decide(f, "to_u64_truncating gives the lowest limb", test)
    # ------------------------------------------------------------ bits
    kd = KINDS["RUint"]
    f = B("mask")
    rm = cx.run(f)
    def test():
        for K in kd.Ks:
            for k in range(K + 3):
                E = env(K, {leaf(rm.args["#0"]): k})
                S = failing(E, rm.ev)
                if bool(S) != (k > K):
                    return "a mask of %d of %d bits is %s" % (k, K, "refused" if S else "made")
                if not S and kd.get(E, E.ev(rm.ret)) != (1 << k) - 1:
                    return "the mask of %d of %d bits is %d" % (k, K, kd.get(E, E.ev(rm.ret)))
    cx.decide(f, "mask(k) has the lowest k bits set, and k may not exceed the width", test)
    f = B("bit")
    rb = cx.run(f)
    def test():
        for x in kd.domain(16):
            for i in range(16):
                E = env(16, {leaf(rb.args["#0"]): x, leaf(rb.args["#1"]): i})
                if bool(E.bool(E.ev(rb.ret))) != bool(x >> i & 1):
                    return "bit %d of %d is wrong" % (i, x)
    cx.decide(f, "bit gives the bit at the index", test)
    f = B("set_bit")
    rs = cx.run(f)
    def test():
        for x in kd.domain(16):
            for i in range(16):
                for b in (False, True):
                    E = env(16, {leaf(rs.args["#0"]): x, leaf(rs.args["#1"]): i, leaf(rs.args["#2"]): b})
                    if kd.get(E, E.ev(rs.after("#0"))) != (x & ~(1 << i)) | b << i:
                        return "setting bit %d of %d to %s gives %s" % (i, x, b, kd.get(E, E.ev(rs.after("#0"))))
    cx.decide(f, "set_bit sets the bit at the index to the value, and no other", test)
    f = B("bit_len")
    rl = cx.run(f)
    def test():
        for x in kd.domain(16):
            E = env(16, {leaf(rl.args["#0"]): x})
            if E.size(E.ev(rl.ret)) != x.bit_length():
                return "%d has %s bits" % (x, E.ev(rl.ret))
    cx.decide(f, "bit_len is the number of bits up to the highest that is set", test)
    f = B("random_bits")
    rr = cx.run(f)
    bl = [v for k, v in rr.args.items() if k == "#1"][0]
    def test():
        for K in kd.Ks:
            for k in range(0, K + 1):
                seen = []
                def fl(E, a):
                    seen.append([E.dig(x) for x in E.seq(a[0])])
                    return hnum("rnd") % (1 << K)
                E = Env(seed=K, vals={"const BITS": K, "const LIMBS": 3, leaf(bl): k}, bools=honest, appfn=dict(apps(K), **{"Uint::from_limbs": fl}))
                if failing(E, rr.ev):
                    return "fails for %d bits" % k
                g = kd.get(E, E.ev(rr.ret))
                if g != hnum("rnd") % (1 << K) & (1 << k) - 1:
                    return "the value for %d bits is not the random limbs cut to %d bits" % (k, k)
                if any(len(set(s)) != 3 for s in seen):
                    return "the limbs are not drawn one by one"
    cx.decide(f, "random_bits draws every limb anew and keeps exactly the lowest bits", test)
    f = B("try_to_usize")
    rt = cx.run(f)
    def test():
        for fits in (False, True):
            E = Env(vals={leaf(rt.args["#0"]): 5}, bools=honest, appfn={"fits:usize": lambda E, a: fits})
            v = E.ev(rt.ret)
            if not isinstance(v, Agg) or (v.var == 1) != fits or fits and E.num(v.f[0]) != 5:
                return "a value that %s gives %s" % ("fits" if fits else "does not fit", v)
    cx.decide(f, "try_to_usize gives the value if it fits, and nothing otherwise", test)
    # ------------------------------------------------------------ casts
    n = 0
    for im in cx.p.impls:
        tr = (im["trait"] or "").split("::")[-1]
        if not im["crate"].startswith("mpc_core"):
            continue
        if not im["targs"]:
            continue
        a, b = im["targs"][0], im["targs"][1] if len(im["targs"]) > 1 else None
        it_ = {k: v[1] for k, v in im["items"].items()}
        if tr == "AsPrimitive" and tname(a) == "RUint":
            f = cx.fn(it_["as_"])
            rc = cx.run(f)
            to = tname(b)
            def test(rc=rc, to=to):
                for L in (1, 2, 3, 4):
                    limbs = sample_limbs(L)
                    for par in (0, 1):
                        limbs[0] = limbs[0] // 2 * 2 + par
                        E = lenv(L, limbs)
                        if failing(E, rc.ev):
                            return "panics for %d limbs" % L
                        v = core(E.ev(rc.ret))
                        if to == "Bit":
                            ok_ = int(bool(E.bool(v))) == par
                        elif to == "RUint":
                            ok_ = isinstance(v, O) and v.org == ("sym", leaf(rc.args["#0"]))
                        elif to == "u128":
                            ok_ = E.num(v) % PRIME == (limbs[0] + (limbs[1] << 64 if L > 1 else 0)) % PRIME
                        else:
                            k = 1 << int(to[1:])
                            ok_ = E.num(v) % k == limbs[0] % k
                        if not ok_:
                            return "the value of %d limbs is not truncated to the lowest bits" % L
            cx.decide(f, "a cast of a fixed-width integer keeps the lowest bits (to %s)" % tystr(b), test)
            n += 1
        elif tname(b) == "RUint" and tr == "AsPrimitive" or tname(a) == "RUint" and tr == "From" and peel(b)[0] == "p":
            f = cx.fn(it_["as_" if tr == "AsPrimitive" else "from"])
            rc = cx.run(f)
            src = tname(a if tr == "AsPrimitive" else b)
            def test(rc=rc, src=src):
                for x in (0, 1) if src in ("Bit", "bool") else (0, 1, 200, 255):
                    E = env(16, {leaf(rc.args["#0"]): bool(x) if src in ("Bit", "bool") else x})
                    if kd.get(E, E.ev(rc.ret)) != x:
                        return "%d becomes %s" % (x, kd.get(E, E.ev(rc.ret)))
            cx.decide(f, "a %s becomes the fixed-width integer of its value" % src, test)
            n += 1
        elif tr == "IntRing2k":
            name = tname(a)
            f, g = cx.fn(it_["cast_to_uint"]), cx.fn(it_["cast_from_uint"])
            to, fr = cx.run(f), cx.run(g)
            def test(to=to, fr=fr, name=name):
                # the source value, by its limbs
                L = {"RUint": 4, "u128": 2}.get(name, 1)
                for s in (1, 2):
                    limbs = sample_limbs(L, s)
                    x = s - 1 if name == "Bit" else limbs[0] & (1 << min(int(name[1:]), 40)) - 1 if L == 1 else None
                    vals = {"self.0": bool(x)} if name == "Bit" else {"self": x} if L == 1 else {}
                    if name == "u128":
                        vals["self"] = (1 << 50) + 77
                        limbs = [(1 << 50) + 77, ((1 << 50) + 77) // pow(2, 64, PRIME)]      # 2^64 as the interpretation has it
                    E = lenv(L, limbs, vals)
                    E.seed = s
                    v = core(E.ev(to.ret))
                    g_ = v.l if isinstance(v, Limbs) else [nint(E, v)] if not isinstance(v, bool) else [int(v)]
                    want = limbs if L > 1 else [x]
                    if (g_ + [0, 0])[:max(len(want), 2)] != (want + [0, 0])[:max(len(want), 2)]:
                        return "cast_to_uint gives another value"
                    if len(g_) > len(want) and any(g_[len(want):]):
                        return "cast_to_uint gives higher limbs"
                    # and back, from a wider or a narrower one
                    for m in (1, 2, 6):
                        wide = sample_limbs(m, s + 5)
                        wide[0] = wide[0] // 2 * 2 + s % 2
                        E = lenv(L, wide, {}, {"UintBackend::bit": lambda E, a: bool(wide[E.size(a[1]) // 64] >> E.size(a[1]) % 64 & 1),
                                                      "UintBackend::bit_len": lambda E, a: max([64 * i + w_.bit_length() for i, w_ in enumerate(wide) if w_] or [0]),
                                                      "UintBackend::is_zero": lambda E, a: not any(wide), "Zero::is_zero": lambda E, a: not any(wide)})
                        if failing(E, fr.ev):
                            return "cast_from_uint fails for %d limbs" % m
                        v = core(E.ev(fr.ret))
                        if name == "Bit":
                            okk = int(bool(E.bool(v))) == wide[0] & 1
                        elif name == "RUint":
                            okk = v.l == (wide + [0] * 4)[:4]
                        elif name == "u128":
                            okk = E.num(v) % PRIME == (wide[0] + ((wide[1] << 64) if m > 1 else 0)) % PRIME
                        else:
                            k = 1 << int(name[1:])
                            okk = E.num(v) % k == wide[0] % k
                        if not okk:
                            return "cast_from_uint of %d limbs does not keep the lowest bits" % m
            cx.decide(f, "casts between %s and fixed-width integers extend by zeros and truncate to the lowest bits" % name, test)
            n += 1
            f = cx.fn(it_["bits"])
            rb_ = cx.run(f)
            def test(rb_=rb_, name=name):
                for x in ((0, 1) if name == "Bit" else (0, 1, 2, 3, 4, 127, 128, 255)):
                    E = env(8, {"self.0": bool(x) if name == "Bit" else x, "self": x})
                    v = E.ev(rb_.ret)
                    if (int(v) if isinstance(v, bool) else E.size(v)) != x.bit_length():
                        return "%d has %s bits" % (x, v)
            cx.decide(f, "bits of %s is the number of bits up to the highest that is set" % name, test)
    if n < 21:
        cx.bad(UINT + "ruint_wrapper", "casts of integers enumerated", "only %d found" % n)
    # ------------------------------------------------------------ serialisation of RUint through ark
    f = cx.meth1("RUint", "serialized_size", trait="CanonicalSerialize")
    rz = cx.run(f)
    def test():
        for L in (1, 4, 16):
            E = lenv(L, [])
            if E.size(E.ev(rz.ret)) != 8 * L:
                return "%d limbs have the size %s" % (L, E.size(E.ev(rz.ret)))
    cx.decide(f, "the serialised size is that of the limbs", test)
    # ------------------------------------------------------------ prime fields
    k = 0
    for im in cx.p.impls:
        if (im["trait"] or "").split("::")[-1] != "FieldUint" or not im["crate"].startswith("mpc_core"):
            continue
        it_ = {kk: v[1] for kk, v in im["items"].items()}
        F_ = tystr(im["targs"][0])
        W = {}
        f = cx.fn(it_["to_uint"])
        ru = cx.run(f)
        N = 6 if ",6>" in F_.replace(" ", "") else 4
        def same_number(E, v, name, limbs, L):
            """the value is the number called `name`, or its limbs filled up with zeros"""
            v = core(v)
            if isinstance(v, Limbs):
                return v.l[:N] == limbs and not any(v.l[N:]) and len(v.l) >= N
            return isinstance(v, O) and v.org == ("sym", name) or v == name
        def test():
            limbs = sample_limbs(N)
            E = lenv(N, limbs, {"self.0": limbs})
            try:
                if failing(E, ru.ev):
                    return "fails (%s)" % (failing(E, ru.ev),)
                E.ev(ru.ret)
            except Undecided as e:
                if str(e).startswith("field 0 of ["):
                    return "gives the internal (Montgomery) form of the element"
                raise
            if not same_number(E, E.ev(ru.ret), "self", limbs, N):
                return "gives another integer than the element's representative"
        cx.decide(f, "to_uint gives the representative of the field element (%s)" % F_, test)
        f = cx.fn(it_["from_uint_reduced"])
        rd = cx.run(f)
        def test():
            for m in (1, 4, 5, 6):
                limbs = sample_limbs(m)
                E = lenv(m, limbs)
                if failing(E, rd.ev):
                    return "fails"
                if E.num(E.ev(rd.ret)) % PRIME != sum(l * pow(2, 64 * i, PRIME) for i, l in enumerate(limbs)) % PRIME:
                    return "an integer of %d limbs becomes the element of another integer" % m
        cx.decide(f, "from_uint_reduced gives the element of the integer, whatever its size (%s)" % F_, test, "modulo an unrelated prime")
        f = cx.fn(it_["from_uint_unchecked"])
        rn = cx.run(f)
        def test():
            limbs = sample_limbs(N) + [0]
            E = lenv(N, limbs, {}, {"default:BigInt<%d>" % N: lambda E, a: Agg("BigInt", 0, [[0] * N]), **{"fits:" + x: lambda E, a: True for x in (F_, F_.replace(" ", ""))}})
            if failing(E, rn.ev):
                return "fails on a reduced integer (%s)" % (failing(E, rn.ev),)
            v = E.ev(rn.ret)
            if isinstance(v, O):
                if v.fpath() != leaf(rn.args["#0"]):
                    return "gives another element than the integer's"
                return None
            v = v.f[0] if isinstance(v, Agg) else v
            if ints(E, v) != limbs[:N]:
                return "gives another element than the integer's"
        cx.decide(f, "from_uint_unchecked gives the element of a reduced integer (%s)" % F_, test)
        f = cx.fn(it_["modulus_uint"])
        rmod = cx.run(f)
        def test():
            limbs = sample_limbs(N, 9)
            E = lenv(N, limbs, {"p.0": limbs}, {"const:PrimeField::MODULUS": lambda E, a: E.sym("p")})
            if failing(E, rmod.ev):
                return "fails"
            if not same_number(E, E.ev(rmod.ret), "p", limbs, N):
                return "gives another integer than the field's modulus"
        cx.decide(f, "modulus_uint is the field's modulus (%s)" % F_, test)
        k += 1
    if k < 6:
        cx.bad(UINT + "field_uint", "fields with an integer representation enumerated", "only %d found" % k)
