"""Properties of the Rep3 protocols: the functions of the replicated layer are summarised once, and the summary is composed for three parties
that hold shares (x_i, x_i-1) and generators (k_i, k_i-1).  The messages of one are what the others receive; results, masking and public
constants are decided on the composition."""
from .common import *
from .rep3 import RF, RU, RP, PRIME, total
from ..terms import T
from ..evalt import UNMODELLED

B = "mpc_core::protocols::rep3::"
RB = "mpc_core::protocols::rep3_ring::"
RR = "Rep3RingShare"
SHARES = (RF, RU, RP, RR)
BITS, MBITS = 24, 20
MASK = (1 << BITS) - 1

def peel(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty
def skind(ty):
    ty = peel(ty)
    k = ty[1].split("::")[-1] if ty[0] == "adt" else None
    return k if k in SHARES else None
def elem(ty):
    """element type of a slice, array or Vec"""
    ty = peel(ty)
    if ty[0] in ("slice", "array"):
        return ty[1]
    if ty[0] == "adt" and ty[1].split("::")[-1] == "Vec":
        return ty[2][0]
    return None

def opt_(x):
    return Agg(OPT, 0, []) if x is None else Agg(OPT, 1, [x])
def wrap(g):
    return lambda E, a: g(*[E.num(x) % PRIME for x in a]) & MASK
def sqrt_(E, a):
    x = E.num(a[0]) % PRIME
    if x and pow(x, (PRIME - 1) // 2, PRIME) != 1:
        return opt_(None)
    # Tonelli-Shanks
    q, s = PRIME - 1, 0
    while q % 2 == 0:
        q, s = q // 2, s + 1
    z = next(z for z in range(2, 1000) if pow(z, (PRIME - 1) // 2, PRIME) == PRIME - 1)
    m, c, u, y = s, pow(z, q, PRIME), pow(x, q, PRIME), pow(x, (q + 1) // 2, PRIME)
    while u not in (0, 1):
        i, w = 0, u
        while w != 1:
            w, i = w * w % PRIME, i + 1
        b = pow(c, 1 << (m - i - 1), PRIME)
        m, c, u, y = i, b * b % PRIME, u * b * b % PRIME, y * b % PRIME
    return opt_(y)
def setbit_(E, a):
    b = 1 << E.size(a[1])
    x = E.num(a[0]) % PRIME
    return x | b if E.bool(a[2]) else x & ~b
UINTS = {"WrappingAdd::wrapping_add": wrap(lambda x, y: x + y), "WrappingSub::wrapping_sub": wrap(lambda x, y: x - y), "WrappingMul::wrapping_mul": wrap(lambda x, y: x * y),
         "WrappingNeg::wrapping_neg": wrap(lambda x: -x), "bitnot": wrap(lambda x: ~x), "FieldUint::to_uint": lambda E, a: a[0], "UintBackend::set_bit!0": setbit_,
         "UintBackend::bit": lambda E, a: bool((E.num(a[0]) % PRIME) >> E.size(a[1]) & 1), "UintBackend::mask": lambda E, a: (1 << E.size(a[0])) - 1,
         "const:UintBackend::BITS": lambda E, a: BITS, "const:IntRing2k::K": lambda E, a: BITS, "const:PrimeField::MODULUS_BIT_SIZE": lambda E, a: MBITS,
         "fits:usize": lambda E, a: True, "fits:u32": lambda E, a: True, "UintBackend::try_to_usize": lambda E, a: opt_(E.num(a[0])), "Field::sqrt": sqrt_,
         "powbig": lambda E, a: pow(E.num(a[0]), E.num(a[1]) % PRIME, PRIME)}

class Env3(Env):
    def fld(self, v, i, name):
        if type(v) is int and i == 0:
            return v        # a ring element is its number
        return Env.fld(self, v, i, name)
def tot(x, mode):
    return sum(x) & MASK if mode == "ring" else total(x, mode)
class Sys3:
    """one interpretation of a summary for three parties"""
    def __init__(self, cx, f, r, mode, seed, n, over=None, lists=None, apps=None, fix=None):
        self.cx, self.f, self.r, self.mode, self.seed, self.n = cx, f, r, mode, seed, n
        self.over = over or {}
        self.draws, self.rev = [], {}
        self.pid = adt_key(cx, "PartyID")
        self.K = [hnum("k", seed, j) for j in range(3)]
        self.args, self.vals = [], [dict() for _ in range(3)]
        self.apps = apps or {}
        self.fix = fix or {}
        tys = f.body["tys"]
        k = 0
        for q in range(f.body["argc"]):
            ty = tys[q + 1]
            a = r.args["#%d" % q]
            p = peel(ty)
            if p[0] == "adt" and p[1].split("::")[-1] == "Rep3State":
                for i in range(3):
                    self.state(a, i)
            elif p[0] == "adt" and p[1] == self.pid and (k not in self.fix):
                for i in range(3):
                    self.bind(i, a, Agg(self.pid, i, []))
            elif p[0] == "par" and p[1].startswith("N") or a.op == "sym" and a.args[0] == "net":
                pass
            elif p[0] == "adt" and not skind(p) and a.op == "agg" and cx.p.adts.get(p[1], {}).get("kind") == "struct" and len(a.args[2]) > 1:
                pass        # a state of some kind: bound by the rule, or arbitrary
            else:
                v, per = self.value(ty, "arg%d" % k, self.fix.get(k))
                self.args.append(v)
                for i in range(3):
                    self.bind(i, a, per[i])
                k += 1
    def low(self, x):
        return x % PRIME if self.mode == "lin" else x & MASK
    def rnd(self, *t_):
        return self.low(hnum("r3p", self.seed, *t_))
    def value(self, ty, tag, fix):
        """(what the parties jointly hold, what each holds)"""
        kd = skind(ty)
        if kd:
            m = "bit" if kd == RU else self.mode
            if callable(fix):
                fix = fix(self.seed, tag)
            x = [hnum("r3p", self.seed, tag, j) for j in range(3)]
            x = [v % PRIME if m == "lin" else v & MASK for v in x]
            if fix is not None:
                x[2] = (fix - x[0] - x[1]) % PRIME if m == "lin" else (fix - x[0] - x[1]) & MASK if m == "ring" else fix ^ x[0] ^ x[1]
            key = self.share_key(peel(ty))
            return tot(x, m), [Agg(key, 0, [x[i], x[i - 1]]) for i in range(3)]
        e = elem(ty)
        if e is not None:
            n = self.n
            l = [self.value(e, tag + "[%d]" % j, fix) for j in range(n)]
            return [v for v, _ in l], [[per[i] for _, per in l] for i in range(3)]
        p = peel(ty)
        if fix == "add":
            x = [self.rnd(tag, j) for j in range(3)]
            return tot(x, self.mode), x
        if callable(fix):
            fix = fix(self.seed, tag)
        v = fix if fix is not None else self.rnd(tag, "p")
        return v, [v] * 3
    def share_key(self, p):
        fs = self.cx.p.adts[p[1]]["variants"][0][1]
        if [x[0] for x in fs[:2]] != ["a", "b"]:
            raise Undecided("components of %s" % p[1])
        return p[1]
    def bind(self, i, a, v):
        if a.op == "sym":
            self.vals[i][a.args[0]] = v
        elif a.op == "agg" and isinstance(v, Agg):
            for x, y in zip(a.args[2], v.f):
                self.bind(i, x, y)
        elif a.op == "agg" and len(a.args[2]) == 1:
            self.bind(i, a.args[2][0], v)
        elif a.op == "agg" and not a.args[2]:
            pass
        else:
            raise Undecided("argument %s" % clip(a))
    def state(self, a, i):
        K = self.K
        def walk(x, name):
            if x.op == "sym":
                nm = x.args[0].split(".")
                last, prev = nm[-1], nm[-2] if len(nm) > 1 else ""
                if last == "id":
                    self.vals[i][x.args[0]] = Agg(self.pid, i, [])
                elif prev == "rand" and last in ("rng1", "rng2"):
                    self.vals[i][x.args[0]] = K[i] if last == "rng1" else K[i - 1]
                elif last.startswith("rng"):
                    self.vals[i][x.args[0]] = hnum("own", self.seed, x.args[0], i)
            elif x.op == "agg":
                for y in x.args[2]:
                    walk(y, name)
        walk(a, "")
    def env(self, i):
        def draw_(E, a):
            s, pos = a
            pos = E.size(pos)
            while isinstance(s, Agg) and s.key == "rng":
                s, pos = s.f[0], pos + E.size(s.f[1])
            k = (E.num(s), pos)
            self.draws.append(k)
            v = self.over.get(k)
            if v is None:
                v = self.low(hnum("draw", self.seed, *k))
            self.rev[v] = k
            return v
        def byte_(E, a):
            k = self.rev.get(E.num(a[0]))
            if k is None:
                return None
            k += (E.size(a[1]),)
            self.draws.append(k)
            v = self.over.get(k)
            return v if v is not None else hnum("byte", self.seed, *k) & 255
        def lowbits_(E, a):
            n = E.size(a[1])
            return E.num(a[0]) & ((1 << n) - 1) if n < BITS else E.num(a[0])
        def be_(E, a):
            v = 0
            for x in E.seq(a[0]):
                v = (v << 8) | (E.num(x) & 255)
            return v
        def netid(E, a):
            return i
        ap = {"draw": draw_, "netid": netid, "byte": byte_, "lowbits": lowbits_, **UINTS, "PrimeField::from_be_bytes_mod_order": be_}
        ap.update(self.apps)
        return Env3(seed=self.seed, vals=self.vals[i], deflen=self.n, bools=honest, appfn=ap)
    def go(self):
        self.S = System(self.r, range(3), self.env).go()
        return self.S
    # -------------------------------------------------------- results
    def out(self, i, what=None):
        E = self.S.p[i].E
        v = self.S.ret(i, what)
        return self.plain(E, okval(E, v))
    def plain(self, E, v):
        if isinstance(v, Agg):
            k = v.key.split("::")[-1]
            if k in SHARES:
                return ("s",) + tuple(self.low(E.num(x)) for x in v.f[:2])
            if k == "Option" or v.key == OPT:
                return ("some", self.plain(E, v.f[0])) if v.var == 1 else ("none",)
            if len(v.f) == 1:
                return self.plain(E, v.f[0])
            return ("t",) + tuple(self.plain(E, x) for x in v.f)
        if isinstance(v, (list, tuple)):
            return [self.plain(E, x) for x in v]
        if isinstance(v, O) and v.org[0] == "app" and self.elements(E, v):
            return [self.plain(E, x) for x in E.seq(v)]
        return ("n", self.low(E.num(v)))
    def elements(self, E, v):
        return False
    def join(self, l, out, path=""):
        """the value the three parties' results denote -> (value, error)"""
        if any(type(x) is not type(l[0]) for x in l):
            return None, "the parties' results have different shapes"
        if isinstance(l[0], list):
            if len({len(x) for x in l}) > 1:
                return None, "the parties get different numbers of results"
            vs = []
            for j in range(len(l[0])):
                v, e = self.join([x[j] for x in l], out, path + "[%d]" % j)
                if e:
                    return None, e
                vs.append(v)
            return vs, None
        if any(x[0] != l[0][0] for x in l):
            return None, "the parties' results have different shapes"
        if l[0][0] == "s":
            for i in range(3):
                if l[i][2] != l[i - 1][1]:
                    return None, "the second component of party %d is not the first one of party %d" % (i, (i - 1) % 3)
            return tot([x[1] for x in l], self.mode), None
        if l[0][0] == "n":
            if out == "add":
                return tot([x[1] for x in l], self.mode), None
            if len({x[1] for x in l}) > 1:
                return None, "the parties get different public values"
            return l[0][1], None
        if l[0][0] == "t":
            vs = []
            for j in range(1, len(l[0])):
                v, e = self.join([x[j] for x in l], out)
                if e:
                    return None, e
                vs.append(v)
            return tuple(vs), None
        return None, "result of an unexpected shape"
    def low_all(self, v):
        if isinstance(v, (list, tuple)):
            return type(v)(self.low_all(x) for x in v)
        return self.low(int(v))
    # -------------------------------------------------------- messages
    def received(self, j):
        """numbers in the messages sent to party j, in order of sender"""
        out = []
        for i in (j - 1, j + 1):
            p = self.S.p[i % 3]
            for (net, to), l in p.sent.items():
                if to == j:
                    for d in l:
                        out += self.numbers(p.E, self.payload(d))
        return out
    def payload(self, d):
        if isinstance(d, O) and d.org[0] == "app" and d.org[1] == "ser":
            return d.org[2][0]
        raise Undecided("message is no serialisation")
    def numbers(self, E, v):
        if isinstance(v, (list, tuple)):
            return [y for x in v for y in self.numbers(E, x)]
        if isinstance(v, Agg):
            return [y for x in v.f for y in self.numbers(E, x)]
        return [self.low(E.num(v))]

def rank2(rows):
    """rank over GF(2) of integers taken as bit vectors"""
    r, rows = 0, [x for x in rows if x]
    while rows:
        p = max(rows)
        b = p.bit_length() - 1
        rows = [x ^ p if (x >> b) & 1 else x for x in rows if x is not p]
        rows = [x for x in rows if x]
        r += 1
    return r

class Spec:
    """what a protocol function computes: want(*values of its arguments) where shares stand for what they share; how: 'share' (default), 'add'
    (additive result) or 'open'; mut: the result is what the first argument becomes; opens: how many numbers it opens on purpose, of n elements"""
    def __init__(self, want, how="share", mut=False, opens=None, fix=None, sizes=(1, 3), mode="lin", apps=None, check=None, halves=0):
        self.halves = halves
        self.want, self.how, self.mut, self.opens, self.fix, self.sizes, self.mode, self.apps, self.check = want, how, mut, opens or (lambda n: 0), fix, sizes, mode, apps, check

def params(f):
    return [peel(x) for x in f.body["tys"][1:f.body["argc"] + 1]]
def has_list(f):
    return any(elem(x) is not None for x in params(f))

def summary(cx, f):
    c = cx.__dict__.setdefault("r3sum", {})
    if f.key not in c:
        c[f.key] = cx.run(f)
    return c[f.key]

def result_rule(cx, f, sp, rule):
    r = summary(cx, f)
    what = (lambda run: run.after("#0")) if sp.mut else None
    if (r.after("#0") if sp.mut else r.ret) is None:
        cx.bad(f, rule, "never returns")
        return
    UNMODELLED.clear()
    def test():
        for n in (sp.sizes if has_list(f) else (1,)):
            for seed in (1, 2):
                S = Sys3(cx, f, r, sp.mode, seed, n, fix=sp.fix, apps=sp.apps)
                S.go()
                if S.S.failed():
                    return "party %d fails (%s at %s)" % (S.S.failed()[0][0], S.S.failed()[0][1][0], S.S.failed()[0][1][2])
                u = S.S.unmatched()
                if u:
                    return "%d messages of party %d to party %d, %d of which are received" % (u[0][2], u[0][0], u[0][1], u[0][3])
                v, e = S.join([S.out(i, what) for i in range(3)], sp.how)
                if e:
                    return e
                if sp.check:
                    if not sp.check(S, v, S.args):
                        return "the parties' results denote another value"
                    continue
                w = S.low_all(sp.want(*S.args))
                if S.low_all(v) != w:
                    return "the parties' results denote another value" + (" (%d elements)" % n if has_list(f) else "")
        return None
    cx.decide(f, rule, test, "composed for three parties, shares and generators arbitrary")

def mask_rule(cx, f, sp, rule):
    """what a party receives depends on generators it does not hold in as many independent ways as there are numbers, up to those opened"""
    r = summary(cx, f)
    UNMODELLED.clear()
    def test():
        for n in (sp.sizes if has_list(f) else (1,)):
            S = Sys3(cx, f, r, sp.mode, 1, n, fix=sp.fix, apps=sp.apps)
            S.go()
            if S.S.failed():
                return None
            local = sp.how == "add"
            def recv(S, j):
                # an additive result is what will be sent to the next party
                return S.received(j) + (S.numbers(S.S.p[(j - 1) % 3].E, okval(S.S.p[(j - 1) % 3].E, S.S.ret((j - 1) % 3))) if local else [])
            base = [recv(S, j) for j in range(3)]
            if not any(base):
                return None
            draws = sorted(set(S.draws))
            for j in range(3):
                m = len(base[j])
                unknown = [d for d in draws if d[0] == S.K[(j + 1) % 3]]
                rows = []
                if sp.mode == "lin":
                    for d in unknown:
                        S2 = Sys3(cx, f, r, sp.mode, 1, n, over={d: hnum("other", *d) if len(d) < 3 else hnum("other", *d) & 255}, fix=sp.fix, apps=sp.apps)
                        S2.go()
                        got = recv(S2, j)
                        if len(got) != m:
                            return "the number of messages depends on random values"
                        rows.append([(x - y) % PRIME for x, y in zip(got, base[j])])
                    rk = rank(rows) if rows else 0
                    need = m - sp.opens(n)
                    if rk < need:
                        return "party %d receives %d numbers of which only %d are masked independently (%d are opened on purpose)" % (j, m, rk, sp.opens(n))
                elif sp.mode == "ring":
                    # rank modulo 2 of the derivatives: full rank makes the masks a bijection of the ring
                    for d in unknown:
                        v0 = S.low(hnum("draw", 1, *d))
                        S2 = Sys3(cx, f, r, sp.mode, 1, n, over={d: (v0 + 1) & MASK}, fix=sp.fix, apps=sp.apps)
                        S2.go()
                        got = recv(S2, j)
                        if len(got) != m:
                            return "the number of messages depends on random values"
                        rows.append(sum(((((x - y) & MASK) >> sp.halves) & 1) << q for q, (x, y) in enumerate(zip(got, base[j]))))
                    rk = rank2(rows)
                    if rk < m - sp.opens(n):
                        return "party %d receives %d ring elements of which only %d are masked independently" % (j, m, rk)
                else:
                    for bit in (0, 5, BITS - 1):
                        rows = []
                        for d in unknown:
                            v0 = S.low(hnum("draw", 1, *d))
                            S2 = Sys3(cx, f, r, sp.mode, 1, n, over={d: v0 ^ (1 << bit)}, fix=sp.fix, apps=sp.apps)
                            S2.go()
                            got = recv(S2, j)
                            if len(got) != m:
                                return "the number of messages depends on random values"
                            rows.append(sum((((x ^ y) >> bit) & 1) << q for q, (x, y) in enumerate(zip(got, base[j]))))
                        rk = rank2(rows)
                        if rk < m - sp.opens(n):
                            return "party %d receives %d values of which only %d are masked independently (bit %d)" % (j, m, rk, bit)
        return None
    cx.decide(f, rule, test, "rank of the received messages in the generators the receiver does not hold")

inv_n = lambda x: pow(x % PRIME, PRIME - 2, PRIME)
def zipw(g):
    return lambda *ls: [g(*[l[j] if isinstance(l, list) else l for l in ls]) for j in range(max(len(l) for l in ls if isinstance(l, list)))]

BIN = dict(mode="bit")
ARITH = {
 "add": Spec(lambda a, b: a + b), "add_assign": Spec(lambda a, b: a + b, mut=True),
 "add_public": Spec(lambda a, c: a + c), "add_assign_public": Spec(lambda a, c: a + c, mut=True),
 "add_vec_assign": Spec(zipw(lambda a, b: a + b), mut=True),
 "sub": Spec(lambda a, b: a - b), "sub_assign": Spec(lambda a, b: a - b, mut=True),
 "sub_vec_assign": Spec(zipw(lambda a, b: a - b), mut=True),
 "sub_shared_by_public": Spec(lambda a, c: a - c), "sub_public_by_shared": Spec(lambda c, a: c - a),
 "mul": Spec(lambda a, b: a * b), "mul_public": Spec(lambda a, c: a * c), "mul_assign_public": Spec(lambda a, c: a * c, mut=True),
 "local_mul_vec": Spec(zipw(lambda a, b: a * b), how="add"), "reshare_vec": Spec(lambda a: a, fix={0: "add"}, opens=lambda n: n),
 "mul_vec": Spec(zipw(lambda a, b: a * b)), "div": Spec(lambda a, b: a * inv_n(b), opens=lambda n: 0),
 "div_shared_by_public": Spec(lambda a, c: a * inv_n(c)), "div_public_by_shared": Spec(lambda c, a: c * inv_n(a)),
 "neg": Spec(lambda a: -a), "inv": Spec(lambda a: inv_n(a)), "inv_vec": Spec(zipw(lambda a: inv_n(a))),
 "open": Spec(lambda a: a, how="open", opens=lambda n: 1), "open_bit": Spec(lambda a: a, how="open", opens=lambda n: 1, mode="bit"),
 "open_vec": Spec(lambda a: a, how="open", opens=lambda n: n),
 "cmux": Spec(lambda c, t_, f_: c * (t_ - f_) + f_), "cmux_vec": Spec(zipw(lambda c, t_, f_: c * (t_ - f_) + f_)),
 "add_mul_public": Spec(lambda a, b, c: a + b * c), "add_mul": Spec(lambda a, b, c: a + b * c),
 "promote_to_trivial_share": Spec(lambda c: c), "mul_open": Spec(lambda a, b: a * b, how="open", opens=lambda n: 1),
 "mul_open_vec": Spec(zipw(lambda a, b: a * b), how="open", opens=lambda n: n),
 "arithmetic_xor": Spec(lambda a, b: a + b - 2 * a * b), "arithmetic_xor_many": Spec(zipw(lambda a, b: a + b - 2 * a * b)),
}
POINT = {
 "add": Spec(lambda a, b: a + b), "sub": Spec(lambda a, b: a - b), "add_assign": Spec(lambda a, b: a + b, mut=True), "sub_assign": Spec(lambda a, b: a - b, mut=True),
 "add_assign_public": Spec(lambda a, c: a + c, mut=True), "sub_assign_public": Spec(lambda a, c: a - c, mut=True),
 "scalar_mul_public_point": Spec(lambda a, b: a * b), "scalar_mul_public_scalar": Spec(lambda a, b: a * b),
 "scalar_mul": Spec(lambda a, b: a * b), "scalar_mul_many": Spec(zipw(lambda a, b: a * b)), "scalar_mul_local": Spec(lambda a, b: a * b, how="add"),
 "promote_to_trivial_share": Spec(lambda c: c), "open_point": Spec(lambda a: a, how="open", opens=lambda n: 1),
 "open_half_point": Spec(lambda a: a, how="open", fix={0: "add"}, opens=lambda n: 2), "open_point_many": Spec(lambda a: a, how="open", opens=lambda n: n),
 "open_point_and_field_many": Spec(lambda a, b: (a, b), how="open", opens=lambda n: 2 * n), "open_point_and_field": Spec(lambda a, b: (a, b), how="open", opens=lambda n: 2),
 "msm_public_points": Spec(lambda p, s: sum(x * y for x, y in zip(p, s))),
}
BINARY = {
 "xor": Spec(lambda a, b: a ^ b, **BIN), "xor_public": Spec(lambda a, c: a ^ c, **BIN), "xor_public_vec": Spec(zipw(lambda a, c: a ^ c), **BIN),
 "or": Spec(lambda a, b: a | b, **BIN), "or_public": Spec(lambda a, c: a | c, **BIN), "and": Spec(lambda a, b: a & b, **BIN),
 "and_vec": Spec(zipw(lambda a, b: a & b), **BIN), "and_with_public": Spec(lambda a, c: a & c, **BIN),
 "open": Spec(lambda a: a, how="open", opens=lambda n: 1, **BIN), "promote_to_trivial_share": Spec(lambda c: c, **BIN),
 "cmux": Spec(lambda c, t_, f_: (c & t_) | (~c & f_), **BIN), "cmux_many": Spec(zipw(lambda c, t_, f_: (c & t_) | (~c & f_)), **BIN),
}
BINARY["or_tree"] = Spec(lambda l: __import__("functools").reduce(lambda a, b: a | b, l), sizes=(1, 2, 3, 4, 5, 6), **BIN)
def square(seed, tag):
    return pow(hnum("sq", seed, tag), 2, PRIME)
def is_root(S, v, args):
    return v * v % PRIME == args[0] % PRIME
ARITH["sqrt"] = Spec(None, fix={0: square}, check=is_root, opens=lambda n: 0)
ARITH["rand"] = Spec(None, check=lambda S, v, args: v == tot([S.low(hnum("draw", S.seed, k, 0)) for k in S.K], S.mode))
small = lambda b: lambda seed, tag: hnum("small", seed, tag) % (1 << b)
ARITH["pow_public"] = Spec(lambda a, e: pow(a, e, PRIME), fix={1: small(5)})
ARITH["pow_2_public"] = Spec(lambda a, e: a << e, fix={1: small(4)})
BINARY["shift_r_public"] = Spec(lambda a, e: a >> e, fix={1: small(4)}, **BIN)
BINARY["shift_l_public"] = Spec(lambda a, e: a << e, fix={1: small(4)}, **BIN)
BINARY["is_zero"] = Spec(lambda a: int(a & ((1 << MBITS) - 1) == 0), fix={0: small(MBITS)}, **BIN)
BINARY["is_zero_many"] = Spec(zipw(lambda a: int(a & ((1 << MBITS) - 1) == 0)), fix={0: small(MBITS)}, **BIN)
def ring(sp):
    """the same function over the integers modulo 2^k"""
    q = Spec(None)
    q.__dict__.update(sp.__dict__)
    q.mode = "bit" if sp.mode == "bit" else "ring"
    return q
RING_ARITH = {k: ring(ARITH[k]) for k in ("add", "add_assign", "add_public", "add_assign_public", "add_vec_assign", "sub", "sub_assign", "sub_vec_assign",
    "sub_shared_by_public", "sub_public_by_shared", "mul", "mul_public", "mul_assign_public", "local_mul_vec", "reshare_vec", "mul_vec", "neg", "open",
    "open_bit", "open_vec", "cmux", "add_mul_public", "add_mul", "promote_to_trivial_share", "mul_open", "mul_open_vec", "rand", "pow_public", "pow_2_public",
    "arithmetic_xor", "arithmetic_xor_many")}
RING_BIN = {k: BINARY[k] for k in ("xor", "xor_public", "or", "or_public", "and", "and_vec", "and_with_public", "shift_r_public", "shift_l_public", "open",
    "promote_to_trivial_share", "cmux", "or_tree", "is_zero")}
# the mask of arithmetic_xor is doubled with the product: the lowest bit of what is sent is that of x_i + y_i, which the receiver holds
for k in ("arithmetic_xor", "arithmetic_xor_many"):
    RING_ARITH[k].halves = 1
RING_ARITH["pow_public"] = Spec(lambda a, e: pow(a, e, MASK + 1), fix={1: small(5)}, mode="ring")
RING_BIN["is_zero"] = Spec(lambda a: int(a & MASK == 0), fix={0: small(BITS)}, **BIN)
GROUPS = ((RB + "arithmetic::", RING_ARITH), (RB + "binary::", RING_BIN), (B + "arithmetic::", ARITH), (B + "pointshare::", POINT), (B + "binary::", BINARY))
LOCAL = ("add_public", "add_assign_public", "sub_shared_by_public", "sub_public_by_shared", "promote_to_trivial_share", "xor_public", "xor_public_vec",
         "or_public", "and_with_public", "mul_public", "mul_assign_public", "add_mul_public", "div_shared_by_public", "sub_assign_public",
         "scalar_mul_public_point", "scalar_mul_public_scalar", "msm_public_points", "pow_2_public", "shift_r_public", "shift_l_public")
LOC2 = ("add", "add_assign", "add_vec_assign", "sub", "sub_assign", "sub_vec_assign", "neg", "xor", "rand")

TIMES = {}
def each(cx, pick):
    import time
    for base, tab in GROUPS:
        for name, sp in tab.items():
            if pick(name, sp):
                t0 = time.time()
                yield cx.fn(base + name), sp
                TIMES[base[-14:] + name] = round(time.time() - t0, 1)
def R01(cx):
    """public constants"""
    for f, sp in each(cx, lambda n, s: n in LOCAL):
        result_rule(cx, f, sp, "a public operand enters the sharing exactly once, in the same component at both holders")
def R06(cx):
    """interactive functions"""
    for f, sp in each(cx, lambda n, s: n not in LOCAL):
        result_rule(cx, f, sp, "three parties obtain shares of (or open) the function of the shared values")
def R02(cx):
    """masking"""
    for f, sp in each(cx, lambda n, s: n not in LOCAL and n not in LOC2):
        mask_rule(cx, f, sp, "what leaves a party is masked by fresh values the receiver does not know")

# ---------------------------------------------------------------- correlated randomness
class Rnd(Sys3):
    """environment of the randomness rules: generators are (key, position)"""
    def env(self, i):
        E = Sys3.env(self, i)
        E.appfn["entropy"] = lambda E, a: hnum("entropy", self.seed, i, E.size(a[0]))
        E.appfn["seeded"] = lambda E, a: hnum("seeded", self.flat(E, a[0]))
        return E
    def flat(self, E, v):
        return tuple(self.numbers(E, v)) if isinstance(v, (Agg, list, tuple)) else (E.num(v) % PRIME,)
def gen_of(E, v):
    """(key, position) of a generator"""
    pos = 0
    while isinstance(v, Agg) and v.key == "rng":
        v, pos = v.f[0], pos + E.size(v.f[1])
    return E.num(v) % PRIME, pos
def fields_of(cx, v):
    if not isinstance(v, Agg):
        raise Undecided("no record: %s" % str(v)[:80])
    return dict(zip([x[0] for x in cx.p.adts[v.key]["variants"][0][1]], v.f))
def gens(cx, E, v, path=""):
    """all generators of a state, by name"""
    out = {}
    if isinstance(v, Agg) and v.key == "rng":
        return {path: gen_of(E, v)}
    if isinstance(v, Agg) and v.key == OPT:
        return gens(cx, E, v.f[0], path) if v.var == 1 else {}
    if isinstance(v, Agg) and v.key in cx.p.adts and cx.p.adts[v.key].get("local") and cx.p.adts[v.key]["kind"] == "struct":
        for n_, x in fields_of(cx, v).items():
            out.update(gens(cx, E, x, path + "." + n_ if path else n_))
        return out
    if type(v) is int and path.split(".")[-1].startswith("rng"):
        return {path: (v % PRIME, 0)}
    return out
def correlated(l, what=""):
    """the generators of three parties are those of a Rep3 state -> None | text"""
    for i in range(3):
        for need in ("rand.rng1", "rand.rng2"):
            if need not in l[i]:
                raise Undecided("generator %s of party %d" % (need, i))
        if l[i]["rand.rng2"] != l[i - 1]["rand.rng1"]:
            return "%sthe second generator of party %d is not the first one of party %d" % (what, i, (i - 1) % 3)
    keys = [l[i]["rand.rng1"] for i in range(3)]
    for c, two in (("bitcomp1", 0), ("bitcomp2", 1)):
        own = [l[i].get(c + ".rng1") for i in range(3)]
        if None in own:
            raise Undecided("generators of %s" % c)
        for i in range(3):
            r2, r3 = l[i].get(c + ".rng2"), l[i].get(c + ".rng3")
            if i == two:
                if r3 is not None:
                    return "%sparty %d holds all generators of %s" % (what, i, c)
                if r2 != own[i - 1]:
                    return "%sthe second generator of %s at party %d is not the one of party %d" % (what, c, i, (i - 1) % 3)
            else:
                if r3 is None:
                    return "%sparty %d lacks a generator of %s" % (what, i, c)
                if r2 != own[(i + 1) % 3] or r3 != own[i - 1]:
                    return "%sthe generators of %s at party %d are not those of the next and the previous party" % (what, c, i)
        keys += own
    if len({k[0] for k in keys}) != len(keys):
        return "%stwo generators are the same" % what
    return None
def std_gens(S, i):
    """generators of a state as set up, for party i"""
    d = {"rand.rng1": S.K[i], "rand.rng2": S.K[i - 1]}
    for c, two in (("bitcomp1", 0), ("bitcomp2", 1)):
        k = [hnum("bc", S.seed, c, j) for j in range(3)]
        d[c + ".rng1"] = k[i]
        d[c + ".rng2"] = k[i - 1] if i == two else k[(i + 1) % 3]
        d[c + ".rng3"] = opt_(None) if i == two else opt_(k[i - 1])
    return d
def bind_gens(S, a, i):
    g = std_gens(S, i)
    def walk(x):
        if x.op == "sym":
            n = x.args[0]
            for k, v in g.items():
                if n == k or n.endswith("." + k) or (n.split(".")[-1] == k.split(".")[-1] and "." not in n.replace("self.", "") and k.startswith("rand.")):
                    S.vals[i][n] = v
                    return
            if n.split(".")[-1] == "id":
                S.vals[i][n] = Agg(S.pid, i, [])
            elif n.split(".")[-1] == "rng":
                S.vals[i][n] = hnum("ownrng", S.seed, i)
        elif x.op == "agg":
            for y in x.args[2]:
                walk(y)
    walk(a)

class GSys(Rnd):
    """methods of states and generators: `self` is bound to generators as set up"""
    def __init__(self, cx, f, r, mode, seed, n, **kw):
        Rnd.__init__(self, cx, f, r, mode, seed, n, **kw)
        for i in range(3):
            bind_gens(self, r.args["#0"], i)
    def value(self, ty, tag, fix):
        p = peel(ty)
        if p[0] in ("int", "uint", "prim") or p == ("p", "usize") or "usize" in str(p):
            return self.n, [self.n] * 3
        return Rnd.value(self, ty, tag, fix)

def R07(cx):
    """correlated generators"""
    f = cx.meth1("Rep3State", "new")
    r = cx.run(f)
    def test():
        for seed in (1, 2):
            S = Rnd(cx, f, r, "lin", seed, 1)
            S.go()
            if S.S.failed():
                return "party %d fails (%s at %s)" % (S.S.failed()[0][0], S.S.failed()[0][1][0], S.S.failed()[0][1][2])
            u = S.S.unmatched()
            if u:
                return "%d messages of party %d to party %d, %d of which are received" % (u[0][2], u[0][0], u[0][1], u[0][3])
            l = []
            for i in range(3):
                E = S.S.p[i].E
                v = okval(E, S.S.ret(i))
                fs = fields_of(cx, v)
                if not isinstance(fs["id"], Agg) or fs["id"].var != i:
                    return "the state of party %d has another id" % i
                l.append(gens(cx, E, fs["rngs"]))
            w = correlated(l)
            if w:
                return w
            # no party ends up with a key it must not have
            for j in range(3):
                k = l[(j + 1) % 3]["rand.rng1"]
                if k in l[j].values():
                    return "party %d holds the generator of the two others" % j
        return None
    UNMODELLED.clear()
    cx.decide(f, "set-up gives every pair of neighbours one common generator, and the bit-composition generators to those meant to have them", test, "three parties composed")
    for im, f in cx.method("Rep3State", "fork", trait="MpcState"):
        r = cx.run(f)
        def test():
            S = GSys(cx, f, r, "lin", 1, 1)
            S.go()
            child, parent = [], []
            for i in range(3):
                E = S.S.p[i].E
                v = fields_of(cx, okval(E, S.S.ret(i)))
                if not isinstance(v["id"], Agg) or v["id"].var != i:
                    return "the forked state of party %d has another id" % i
                child.append(gens(cx, E, v["rngs"]))
                after = fields_of(cx, S.S.ret(i, lambda run: run.after("#0")))
                parent.append(gens(cx, E, after["rngs"]))
            w = correlated(child, "after a fork: ") or correlated(parent, "the state forked from: ")
            if w:
                return w
            for i in range(3):
                a, b = {k[0] for k in child[i].values()}, {k[0] for k in parent[i].values()}
                if a & b:
                    return "a fork goes on with a generator of the state it came from"
            # a second fork is another one: the position of what seeds it has moved on
            for i in range(3):
                g0 = std_gens(S, i)
                for k, (key, pos) in parent[i].items():
                    if pos == 0:
                        return "the generator %s is not moved on by a fork, so that two forks are alike" % k
            return None
        UNMODELLED.clear()
        cx.decide(f, "forks are correlated like the state they come from, and independent of it", test, "three parties, generators as set up")
    zero = {"masking_field_element": ("lin", 0), "masking_element": ("ring", 0), "masking_field_elements_vec": ("lin", 1), "masking_elements_vec": ("ring", 1), "masking_ec_element": ("lin", 0)}
    for name, (mode, many) in zero.items():
        f = cx.meth1("Rep3Rand", name)
        r = cx.run(f)
        def test():
            for n in ((0, 1, 3) if many else (1,)):
                S = GSys(cx, f, r, mode, 1, n)
                S.go()
                l = [S.plain(S.S.p[i].E, S.S.ret(i)) for i in range(3)]
                l = [x if isinstance(x, list) else [x] for x in l]
                if any(len(x) != n for x in l):
                    return "%s elements instead of %d" % ([len(x) for x in l], n)
                for q in range(n):
                    if S.low(sum(x[q][1] for x in l)):
                        return "the parties' masks do not add up to zero"
                    if not all(x[q][1] for x in l):
                        return "a mask is zero"
                if many and n > 1 and any(len({x[1] for x in y}) < n for y in l):
                    return "masks are repeated"
            return None
        UNMODELLED.clear()
        cx.decide(f, "the masks of the three parties add up to zero, and each is fresh", test, "three parties")
    pairs = ("random_fes", "random_elements", "random_ecs", "random_uint", "random_seeds")
    for name in pairs:
        f = cx.meth1("Rep3Rand", name)
        r = cx.run(f)
        def test():
            S = GSys(cx, f, r, "lin", 1, 9)
            S.go()
            l = [S.plain(S.S.p[i].E, S.S.ret(i)) for i in range(3)]
            for i in range(3):
                if l[i][2] != l[i - 1][1]:
                    return "the second value of party %d is not the first one of party %d" % (i, (i - 1) % 3)
            if len({str(x[1]) for x in l}) < 3:
                return "the values of two parties are the same"
            return None
        UNMODELLED.clear()
        cx.decide(f, "the second value of every party is the first one of the previous party", test, "three parties")
    singles = (("random_uint_rng1", "random_uint_rng2"), ("random_field_element_rng1", "random_field_element_rng2"), ("random_element_rng1", "random_element_rng2"))
    for n1, n2 in singles:
        f1, f2 = cx.meth1("Rep3Rand", n1), cx.meth1("Rep3Rand", n2)
        r1, r2 = cx.run(f1), cx.run(f2)
        def test():
            S1, S2 = GSys(cx, f1, r1, "lin", 1, 9), GSys(cx, f2, r2, "lin", 1, 9)
            S1.go()
            S2.go()
            for i in range(3):
                if S2.plain(S2.S.p[i].E, S2.S.ret(i)) != S1.plain(S1.S.p[(i - 1) % 3].E, S1.S.ret((i - 1) % 3)):
                    return "what party %d draws from its second generator is not what party %d draws from its first one" % (i, (i - 1) % 3)
                for S, w in ((S1, "rng1"), (S2, "rng2")):
                    v = S.S.ret(i, lambda run: run.after("#0"))
                    g = {k.split(".")[-1]: p for k, (_, p) in gens(cx, S.S.p[i].E, v, "rand").items()}
                    if g.get(w) != 1 or any(p for k, p in g.items() if k != w):
                        return "the generators are not moved on by the one draw"
            return None
        UNMODELLED.clear()
        cx.decide(f2, "drawing from one of the two generators gives the value the neighbour draws from the same one", test, "three parties")
    for name, ids in (("generate_shared", (0, 1, 2)), ("generate_garbler_randomness", (1, 2))):
        f = cx.meth1("Rep3CorrelatedRng", name)
        r = cx.run(f)
        def test():
            S = GSys(cx, f, r, "lin", 1, 1)
            l = []
            for i in ids:
                E = S.env(i)
                if E.fails(r.ev):
                    return "party %d fails" % i
                v = E.ev(r.ret)
                l.append(S.plain(E, v))
            if len({str(x) for x in l}) != 1:
                return "the parties meant to share the value get different ones"
            after = [gens(cx, E, E.ev(r.after("#0"))) for E in [S.env(i) for i in range(3)]]
            w = None
            for i in ids:
                if sum(p for _, p in after[i].values()) != 1:
                    return "party %d moves on %d generators" % (i, sum(p for _, p in after[i].values()))
            return None
        UNMODELLED.clear()
        cx.decide(f, "all parties meant to share the value get the same one", test, "generators as set up")

# ---------------------------------------------------------------- sharing and combining
class One(Sys3):
    """a dealer: one interpretation, values as given"""
    def __init__(self, cx, f, r, mode, seed, n, over=None, maybe=False):
        self.maybe = maybe
        Sys3.__init__(self, cx, f, r, mode, seed, n, over=over)
        self.E = self.env(0)
        self.E.appfn["seeded"] = lambda E, a: hnum("seeded", E.num(a[0]) % PRIME)
    def value(self, ty, tag, fix):
        p = peel(ty)
        if tag.startswith("arg0") and p[0] == "adt" and p[1].endswith("Option"):
            v = None if tag.endswith("[1]") else self.rnd(tag, "p")
            return v, [opt_(v)] * 3
        if tag.startswith("arg0"):
            if elem(ty) is None and self.mode == "bit":
                v = self.rnd(tag) & ((1 << MBITS) - 1)
                return v, [v] * 3
            return Sys3.value(self, ty, tag, fix)
        v = hnum("dealer", self.seed)
        return v, [v] * 3
SHARING = (("", "share_field_element", "lin", "rep", 0), ("", "share_field_element_additive", "lin", "add", 0), ("", "share_field_element_seeded", "lin", "rep", 0),
           ("", "share_field_element_additive_seeded", "lin", "add", 0), ("", "share_field_elements", "lin", "rep", 1), ("", "share_maybe_field_elements", "lin", "rep", 1),
           ("", "share_field_elements_additive", "lin", "add", 1), ("", "share_maybe_field_elements_additive", "lin", "add", 1), ("", "share_field_elements_seeded", "lin", "rep", 1),
           ("", "share_field_elements_additive_seeded", "lin", "add", 1), ("", "share_binary", "bit", "rep", 0), ("", "share_curve_point", "lin", "rep", 0),
           ("", "share_curve_points", "lin", "rep", 1), ("ring", "share_ring_element", "ring", "rep", 0), ("ring", "share_ring_elements", "ring", "rep", 1),
           ("ring", "share_ring_element_binary", "bit", "rep", 0), ("ring", "share_ring_elements_binary", "bit", "rep", 1))
COMBINING = (("", "combine_field_element", "lin", 0), ("", "combine_field_elements", "lin", 1), ("", "combine_binary_element", "bit", 0), ("", "combine_binary_elements", "bit", 1),
             ("", "combine_curve_point", "lin", 0), ("", "combine_curve_points", "lin", 1), ("ring", "combine_ring_element", "ring", 0), ("ring", "combine_ring_elements", "ring", 1),
             ("ring", "combine_ring_element_binary", "bit", 0))

def expanders(cx):
    """functions that expand compressed shares, by type and by whether they hold a vector"""
    out = {}
    for ty in ("SeededType", "ReplicatedSeedType"):
        for name in ("expand", "expand_vec"):
            f = cx.meth1(ty, name)
            out[ty, name] = (f, cx.run(f))
    return out
def R08(cx):
    """sharing and combining"""
    ex = expanders(cx)
    def components(S, v, many, how):
        """the share of one party -> list of tuples of components (or None)"""
        E = S.E
        if isinstance(v, Agg) and v.key.split("::")[-1] in ("SeededType", "ReplicatedSeedType"):
            f, r = ex[v.key.split("::")[-1], "expand_vec" if many else "expand"]
            E2 = S.env(0)
            E2.appfn["seeded"] = S.E.appfn["seeded"]
            a = r.args["#0"]
            S2 = S.vals[0]
            tmp = dict(S2)
            S.vals[0] = tmp
            try:
                bind_enum(S, a, v, cx)
                E2 = S.env(0)
                E2.appfn["seeded"] = S.E.appfn["seeded"]
                b = E2.fails(r.ev)
                if b:
                    raise Broken("a compressed share does not expand (%s at %s)" % (b[0], b[2]))
                v = okval(E2, E2.ev(r.ret))
            finally:
                S.vals[0] = S2
        p = S.plain(E, v)
        l = p if many else [p]
        out = []
        for x in l:
            if x[0] == "none":
                out.append(None)
                continue
            if x[0] == "some":
                x = x[1]
            out.append(tuple(x[1:]))
        return out
    class Broken(Exception):
        pass
    for grp, name, mode, how, many in SHARING:
        f = cx.fn((RB if grp else B) + name)
        r = cx.run(f)
        def views(S):
            v = S.E.ev(r.ret)
            v = S.E.seq(v) if not isinstance(v, list) else v
            if len(v) != 3:
                raise Broken("%d shares" % len(v))
            return [components(S, x, many, how) for x in v]
        def test():
            try:
                for n in ((0, 1, 3) if many else (1,)):
                    for seed in (1, 2):
                        S = One(cx, f, r, mode, seed, n)
                        if S.E.fails(r.ev):
                            return "sharing fails"
                        l = views(S)
                        secret = S.args[0] if many else [S.args[0]]
                        if any(len(x) != len(secret) for x in l):
                            return "parties get %s shares of %d values" % ([len(x) for x in l], len(secret))
                        for q, x in enumerate(secret):
                            c = [y[q] for y in l]
                            if x is None or any(z is None for z in c):
                                if x is not None or any(z is not None for z in c):
                                    return "values that are there and values that are not are mixed up"
                                continue
                            if how == "rep":
                                if any(len(z) != 2 for z in c):
                                    raise Undecided("components of a share")
                                for i in range(3):
                                    if c[i][1] != c[i - 1][0]:
                                        return "the second component of party %d is not the first one of party %d" % (i, (i - 1) % 3)
                            if tot([z[0] for z in c], mode) != S.low(x):
                                return "the shares are not shares of the value"
                        if seed > 1:
                            continue
                        # each party alone: its components are as many independent random values
                        draws = sorted(set(S.draws))
                        base = [[z for y in l[i] if y is not None for z in y] for i in range(3)]
                        rows = [[] for _ in range(3)]
                        for d in draws:
                            v0 = S.low(hnum("draw", 1, *d))
                            nv = hnum("other", *d) if mode == "lin" else v0 ^ 1 if mode == "bit" else (v0 + 1) & MASK
                            S2 = One(cx, f, r, mode, seed, n, over={d: nv})
                            l2 = views(S2)
                            for i in range(3):
                                g = [z for y in l2[i] if y is not None for z in y]
                                rows[i].append([(a - b) % PRIME for a, b in zip(g, base[i])] if mode == "lin" else sum(((a ^ b) & 1) << k for k, (a, b) in enumerate(zip(g, base[i]))))
                        for i in range(3):
                            if base[i]:
                                rk = (rank(rows[i]) if mode == "lin" else rank2(rows[i])) if rows[i] else 0
                                if rk < len(base[i]):
                                    return "what party %d gets is not independent of the shared values (%d numbers, %d of them random)" % (i, len(base[i]), rk)
            except Broken as e:
                return str(e)
            return None
        UNMODELLED.clear()
        cx.decide(f, "three consistent shares of the value, none of which tells anything about it", test, "all components compared; rank of every party's share in the dealer's randomness")
    for grp, name, mode, many in COMBINING:
        f = cx.fn((RB if grp else B) + name)
        r = cx.run(f)
        if r.ret is None:
            cx.bad(f, "combining gives the shared value", "never returns")
            continue
        def test():
            for n in ((0, 1, 3) if many else (1,)):
                for seed in (1, 2):
                    S = Sys3(cx, f, r, mode, seed, n)
                    # the three arguments are the three parties' shares
                    x = [[S.rnd("c", q, j) for j in range(3)] for q in range(n)]
                    for i in range(3):
                        a = r.args["#%d" % i]
                        k = skind(f.body["tys"][i + 1]) or skind(elem(f.body["tys"][i + 1]))
                        key = S.share_key(peel(elem(f.body["tys"][i + 1]) or f.body["tys"][i + 1]))
                        sh = [Agg(key, 0, [c[i], c[i - 1]]) for c in x]
                        S.bind(0, a, sh if many else sh[0])
                    E = S.env(0)
                    if E.fails(r.ev):
                        return "combining fails"
                    got = S.plain(E, E.ev(r.ret))
                    got = got if many else [got]
                    if [g[1] for g in got] != [tot(c, mode) for c in x]:
                        return "another value than the shared one (%d elements)" % n
            return None
        UNMODELLED.clear()
        cx.decide(f, "combining gives the shared value", test, "all shares arbitrary")
def bind_enum(S, a, v, cx):
    if a.op == "sym":
        S.vals[0][a.args[0]] = v
    elif a.op == "agg":
        for x, y in zip(a.args[2], v.f):
            bind_enum(S, x, y, cx)
    else:
        raise Undecided("argument %s" % clip(a))

# ---------------------------------------------------------------- bridge to Shamir
def R09(cx):
    """Rep3 shares become Shamir shares"""
    def shamir(name):
        return cx.meth1("ShamirState", name)
    def points(S, many):
        out = []
        for i in range(3):
            E = S.env(i)
            b = E.fails(S.r.ev)
            if b:
                return None, "party %d fails (%s at %s)" % (i, b[0], b[2])
            v = S.plain(E, okval(E, E.ev(S.r.ret)))
            out.append([x[1] for x in v] if many else [v[1]])
        return out, None
    for name, many in (("translate_primefield_repshare", 0), ("translate_primefield_repshare_vec", 1), ("translate_point_repshare", 0)):
        f = shamir(name)
        r = cx.run(f)
        def test():
            for n in ((0, 1, 3) if many else (1,)):
                for seed in (1, 2):
                    S = Sys3(cx, f, r, "lin", seed, n)
                    ys, e = points(S, many)
                    if e:
                        return e
                    sec = S.args[0] if many else [S.args[0]]
                    if any(len(y) != len(sec) for y in ys):
                        return "another number of shares"
                    for q, x in enumerate(sec):
                        y = [ys[i][q] for i in range(3)]
                        c = poly_coeffs([1, 2, 3], y)
                        if len(c) > 2 and c[2] % PRIME:
                            return "the shares lie on no line"
                        if c[0] % PRIME != x % PRIME:
                            return "the shares are shares of another value"
                    # the slope is random: a translated share is as private as the replicated one
            # sizes around the thresholds of the function take the same value
            for L in around(r.ret, r.ret, r.ev, top=5000) if many else ():
                S = Sys3(cx, f, r, "lin", 1, L)
                ys, e = points(S, many)
                if e:
                    return e
                for q in (0, L // 2, L - 1):
                    c = poly_coeffs([1, 2, 3], [ys[i][q] for i in range(3)])
                    if (len(c) > 2 and c[2] % PRIME) or c[0] % PRIME != S.args[0][q] % PRIME:
                        return "the shares are wrong for %d elements" % L
            return None
        UNMODELLED.clear()
        cx.decide(f, "the three translated shares are a Shamir sharing of degree one, at the parties' points, of the same value", test, "three parties")
    for name, many, contract in (("translate_primefield_addshare", 0, "degree_reduce"), ("translate_primefield_addshare_vec", 1, "degree_reduce_many")):
        f = shamir(name)
        def c_dr(it, fr, st, a, args, loc):
            return ok(mk("app", "DR", it.deref_all(st, args[-1])))
        r = cx.run(f, ov={NET + contract: c_dr})
        def test():
            for n in ((1, 3) if many else (1,)):
                S = Sys3(cx, f, r, "lin", 1, n)
                E = S.env(0)
                b = E.fails(r.ev)
                if b:
                    return "fails (%s at %s)" % (b[0], b[2])
                v = okval(E, E.ev(r.ret))
                if not (isinstance(v, O) and v.org[0] == "app" and v.org[1] == "DR"):
                    raise Undecided("result is no degree reduction")
                got = [E.num(x) for x in E.seq(v.org[2][0])] if many else [E.num(v.org[2][0])]
                lam = E.num(E.ev(idx(fget(cx, r.args["#0"], "open_lagrange_2t"), ZERO)))
                want = E.vals[r.args["#1"].args[0]]
                want = want if many else [want]
                if [g * lam % PRIME for g in got] != [E.num(w) % PRIME for w in want]:
                    return "what is reduced is not the additive share divided by the party's reconstruction coefficient"
            return None
        UNMODELLED.clear()
        cx.decide(f, "the degree reduction is of points whose reconstruction is the sum of the additive shares", test, "arbitrary state")
