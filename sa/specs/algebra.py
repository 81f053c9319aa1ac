"""Interpretations of the finite-field and FFT vocabulary, and of protocols on secret-shared values by all parties at once."""
from .common import *
from ..evalt import h as hh, Undecided, NeedValue
from ..terms import T

TWOAD = 32
TRACE = (PRIME - 1) >> TWOAD
def adicity(E):
    """the 2-adicity of the interpretation's field: a smaller one than the field has is a subgroup of its roots"""
    return getattr(E, 'twoad', TWOAD)
def _root_of(g):
    return pow(g, TRACE, PRIME)
def is_qnr(x):
    return pow(x, (PRIME - 1) // 2, PRIME) == PRIME - 1
# a generator of the multiplicative group other than the smallest non-residue (so that the two ways of choosing roots differ)
GEN = next(g for g in range(4, 200) if all(pow(g, (PRIME - 1) // q, PRIME) != 1 for q in (2, 4603, 5, 23327)))
QNR = next(g for g in range(2, 200) if is_qnr(g))
def ark_root(n):
    return pow(_root_of(GEN), (1 << TWOAD) // n, PRIME)
def snark_root(log):
    """ffjavascript: w[s] = q^t, w[i] = w[i+1]^2"""
    return pow(_root_of(QNR), 1 << (TWOAD - log), PRIME)
def npow2(n):
    return 1 if n <= 1 else 1 << (n - 1).bit_length()
def bitrev(l):
    n = len(l)
    if n <= 2:
        return list(l)
    k = n.bit_length() - 1
    return [l[int(format(i, "0%db" % k)[::-1], 2)] for i in range(n)]

class Vals:
    """numbers of a list of field elements or one-field records, and the way back"""
    def __init__(self, E, v):
        self.E, self.l = E, E.seq(v)
        self.wrap = next((x for x in self.l if isinstance(x, Agg)), None)
        self.n = [E.num(x) % PRIME for x in self.l]
    def back(self, ns):
        w = self.wrap
        if w is None:
            return ns
        return [Agg(w.key, w.var, [x]) for x in ns]

def dft(c, g):
    """values at g^0, g^1, ... of the polynomial with coefficients c"""
    n = len(c)
    if n <= 1:
        return list(c)
    if n & 1:
        out, x = [], 1
        for i in range(n):
            out.append(ev_poly(c, x))
            x = x * g % PRIME
        return out
    e, o = dft(c[0::2], g * g % PRIME), dft(c[1::2], g * g % PRIME)
    r, x = [0] * n, 1
    for i in range(n // 2):
        y = x * o[i] % PRIME
        r[i], r[i + n // 2] = (e[i] + y) % PRIME, (e[i] - y) % PRIME
        x = x * g % PRIME
    return r
def idft(v, g):
    n = len(v)
    iv = inv_(n)
    return [x * iv % PRIME for x in dft(v, inv_(g))]

def mkdom(size, gen, off=1):
    return Agg("domain", 0, [size, gen % PRIME, off % PRIME])
def dom_of(E, d):
    while isinstance(d, Agg) and d.key != "domain" and len(d.f) == 1:
        d = d.f[0]
    if not isinstance(d, Agg) or d.key != "domain":
        raise Undecided("domain %r" % (d,))
    return d.f
def some_(x):
    return Agg(OPT, 1, [x])
NONE_ = Agg(OPT, 0, [])
def _with_gen(E, a):
    n, g = E.sint(a[0]), E.num(a[1]) % PRIME
    s = npow2(n)
    if s.bit_length() - 1 > adicity(E):
        return NONE_
    if (g != 1) if s == 1 else (pow(g, s // 2, PRIME) != PRIME - 1):
        return NONE_
    return some_(mkdom(s, g))
def _new_dom(E, a):
    s = npow2(E.sint(a[0]))
    if s.bit_length() - 1 > adicity(E):
        return NONE_
    return some_(mkdom(s, ark_root(s)))
def _tr(f):
    def g(E, a):
        size, gen, off = dom_of(E, a[0])
        v = Vals(E, a[1])
        if len(v.n) != size:
            return E.bot()
        return v.back(f(v.n, gen))
    return g
def _bitrev(E, a):
    l = list(E.seq(a[0]))
    if len(l) & (len(l) - 1):
        return E.bot()
    return bitrev(l)
def _powbig(E, a):
    e = a[1]
    if isinstance(e, list):
        s = 0
        for i, x in enumerate(e):
            s += (E.num(x) % PRIME) << (64 * i)
        e = s
    else:
        e = E.num(e)
    e %= PRIME
    return pow(E.num(a[0]) % PRIME, e, PRIME)
def _legendre(key):
    def f(E, a):
        x = E.num(a[0]) % PRIME
        return Agg(key, 0 if x == 0 else 2 if is_qnr(x) else 1, [])
    return f
def field_apps(cx):
    leg = [k for k in cx.p.adts if k.split("::")[-1] == "LegendreSymbol"]
    d = {"Domain::with_group_gen": _with_gen, "Domain::new": _new_dom,
         "Domain::ifft_in_to_out!1": _tr(lambda v, g: bitrev(idft(v, g))),
         "Domain::fft_in_to_out!1": _tr(lambda v, g: bitrev(dft(v, g))),
         "Domain::fft_out_to_in!1": _tr(lambda v, g: dft(bitrev(v), g)),
         "Domain::ifft_out_to_in!1": _tr(lambda v, g: idft(bitrev(v), g)),
         "fft::bit_reverse!0": _bitrev,
         "Domain::size": lambda E, a: dom_of(E, a[0])[0],
         "Domain::group_gen": lambda E, a: dom_of(E, a[0])[1],
         "const:FftField::TWO_ADICITY": lambda E, a: adicity(E),
         "const:FftField::GENERATOR": lambda E, a: GEN,
         "const:PrimeField::TRACE": lambda E, a: (PRIME - 1) >> adicity(E),
         "const:FftField::TWO_ADIC_ROOT_OF_UNITY": lambda E, a: pow(_root_of(GEN), 1 << (TWOAD - adicity(E)), PRIME),
         "powbig": _powbig,
         "Field::legendre": _legendre(leg[0] if leg else "LegendreSymbol"),
         "next_power_of_two": lambda E, a: npow2(E.sint(a[0])),
         "is_power_of_two": lambda E, a: (lambda n: n > 0 and not n & (n - 1))(E.sint(a[0])),
         "ilog2": lambda E, a: E.sint(a[0]).bit_length() - 1,
         "trailing_zeros": lambda E, a: (lambda n: (n & -n).bit_length() - 1 if n else 64)(E.sint(a[0])),
         "nthreads": lambda E, a: 3}
    return d

# ---------------------------------------------------------------- all parties at once
class Need(NeedValue):
    def __init__(self, key, val):
        self.key, self.val = key, val
class Joint:
    """Interpretations of one summary for all parties of a Shamir protocol.  Shared inputs are values of random polynomials of degree t; the
    terms a contract introduces (rand, degree reduction, opening) are interpreted over all parties together, with the degree of what is
    reduced or opened checked."""
    def __init__(self, n, t, mkenv, seed=1):
        self.n, self.t, self.seed = n, t, seed
        self.table, self.why, self.grown = {}, [], 0
        self.opened, self.reduced = [], []
        self.E = []
        for i in range(n):
            E = mkenv(i)
            E.appfn = dict(E.appfn)
            E.appfn.update({"rt": self.rt(i), "dr": self.ask(i, "dr"), "drp": self.ask(i, "dr"), "drv": self.ask(i, "dr", True), "openhp": self.ask(i, "open2t"),
                            "open2t": self.ask(i, "open2t"), "opent": self.ask(i, "opent"), "opentv": self.ask(i, "opent", True), "open2tv": self.ask(i, "open2t", True)})
            self.E.append(E)
    def share(self, secret, key, i, deg=None):
        deg = self.t if deg is None else deg
        r = secret
        for j in range(1, deg + 1):
            r += hnum("coef", self.seed, key, j) * pow(i + 1, j, PRIME)
        return r % PRIME
    def secret_rt(self, k):
        return hnum("rts", self.seed, k)
    def rt(self, i):
        def f(E, a):
            k = E.num(a[-1]) % PRIME
            return self.share(self.secret_rt(k), ("rt", k), i)
        return f
    def ask(self, i, kind, many=False):
        def f(E, a):
            x = E.seq(a[0]) if many else a[0]
            k = (kind, E.num(a[1]) % PRIME) if len(a) > 1 else (kind, None)
            return self.get(E, i, k, x)
        return f
    def get(self, E, i, key, x):
        d = self.table.setdefault(key, {})
        vec = isinstance(x, list)
        v = tuple(E.num(y) % PRIME for y in E.seq(x)) if vec else E.num(x) % PRIME
        if key[1] is None:
            # openings carry no number: told apart by the value of this party
            slot = d.setdefault("by", {}).setdefault(i, {})
            if v in slot:
                n = slot[v]
            else:
                n = slot[v] = len(slot)
            d = d.setdefault(n, {})
        if d.setdefault("v", {}).get(i) != v:
            self.grown += 1
        d["v"][i] = v
        if len(d["v"]) < self.n:
            raise Need(key, v)
        if "r" not in d:
            vs = [d["v"][j] for j in range(self.n)]
            if vec and len(set(map(len, vs))) > 1:
                raise Undecided("vectors of different lengths in different parties")
            d["r"] = [self.result(key, [w[m] for w in vs], m) for m in range(len(v))] if vec else self.result(key, vs, 0)
        r = d["r"]
        return [y[i] for y in r] if vec else r[i]
    def result(self, key, ys, m):
        xs = list(range(1, self.n + 1))
        deg = degree_of(xs, ys)
        lim = self.t if key[0] == "opent" else 2 * self.t
        if deg > lim:
            self.why.append("a sharing of degree %d is %s where the degree is at most %d (%d parties, threshold %d)" % (deg, "reduced" if key[0] == "dr" else "opened", lim, self.n, self.t))
        s = interp_at(xs, ys)
        if key[0] == "dr":
            self.reduced.append(s)
            return [self.share(s, ("dr", key, m), i) for i in range(self.n)]
        self.opened.append((s, deg))
        return [s] * self.n
    def eval(self, f):
        """value of a term (or function of an environment) for every party"""
        out = [None] * self.n
        todo = set(range(self.n))
        rounds, last, seen = 0, None, -1
        while todo:
            prog = False
            keys = {}
            for i in sorted(todo):
                try:
                    out[i] = self.E[i].ev(f) if type(f) is T else f(self.E[i])
                    todo.discard(i)
                    prog = True
                except Need as e:
                    keys[i] = e.key
            ks = sorted(map(str, keys.items()))
            prog = prog or self.grown != seen
            seen = self.grown
            if not prog and ks == last:
                raise Undecided("the parties disagree on the next joint step: %s" % ks[:3])
            last = ks
            rounds += 1
            if rounds > 20000:
                raise Undecided("too many joint steps")
        return out
    def numbers(self, f):
        return [nsh(E, v) for E, v in zip(self.E, self.eval(f))]
    def secret(self, f, deg=None):
        """value shared by the parties' values, which form a sharing of degree at most deg (else None)"""
        ys = self.numbers(f)
        xs = list(range(1, self.n + 1))
        def one(*y):
            if isinstance(y[0], list):
                return [one(*z) for z in zip(*y)]
            if deg is not None and degree_of(xs, list(y)) > deg:
                return None
            return interp_at(xs, list(y))
        if isinstance(ys[0], list) and len(set(map(len, ys))) > 1:
            return None
        return one(*ys)
