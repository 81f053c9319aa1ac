"""Interactive Shamir operations, decided on the composition of a function's summary for all parties."""
from .common import *
from .shamir2 import penv, fval, prep, prepared, net_events, S12_CASES, around
from ..evalt import O
from ..system import unser
from ..spec import critical

class Proto:
    """one interactive function: its parameters by kind and what it must compute from the shared values.
    kinds: sh/psh share of degree t, shv/pshv slices of them, raw/rawv local values on polynomials of degree 2t, pub public value, net, state"""
    def __init__(self, cx, key, params, want, outs="share", zero=(), ov=None, m=3, cases=None, point=False):
        self.cx, self.f, self.params, self.want, self.outs = cx, cx.fn(key), params, want, outs
        self.m, self.point, self._sizes = m, point, None
        self.cases = cases or ((3, 1), (4, 1), (5, 2), (7, 3), (6, 2))
        ov = shamir_contracts(cx, "get_pair") if ov is None else ov
        self.run = cx.run(self.f, ov=ov, as_=[p[0] for p in params])
        self.states = state_fields(cx)
        self.sf = cx.p.adts[adt_key(cx, FS)]["variants"][0][1][0][0]
        self.pf = cx.p.adts[adt_key(cx, PS)]["variants"][0][1][0][0]
    def secret(self, seed, name, k=None):
        return hnum("secret", seed, name, k)
    def poly(self, seed, name, k, deg, zero=()):
        c = [0 if name in zero or (name, k) in zero else self.secret(seed, name, k)]
        return c + [hnum("coef", seed, name, k, j) for j in range(deg)]
    def env(self, N, th, i, seed=1, m=None, zero=(), shift=None, bools=honest):
        m = self.m if m is None else m
        shift = shift or {}
        vals, lens = dict(self.states(N, th, i)), {}
        def put(path, name, k, deg):
            vals[path] = (ev_poly(self.poly(seed, name, k, deg, zero), i + 1) + shift.get(("in", i, name, k), 0)) % PRIME
        for name, kind in self.params:
            if kind in ("sh", "psh"):
                put(name + "." + (self.sf if kind == "sh" else self.pf), name, None, th)
            elif kind in ("shv", "pshv"):
                lens[name] = m
                for k in range(m):
                    put("%s[%d].%s" % (name, k, self.sf if kind == "shv" else self.pf), name, k, th)
            elif kind == "raw":
                put(name, name, None, 2 * th)
            elif kind == "rawv":
                lens[name] = m
                for k in range(m):
                    put("%s[%d]" % (name, k), name, k, 2 * th)
            elif kind == "pub":
                vals[name] = 0 if name in zero else self.secret(seed, name)
        vals["ghost pairs"] = 0
        gen_ = hnum("generator")
        def pairpoly(k, two):
            c = [hnum("pair", seed, k)] + [hnum("pairc", seed, k, j, two) for j in range((2 if two else 1) * th)]
            return c
        app = {"PrimeGroup::generator": lambda E, a: 1,        # points stand for their discrete logarithms
               "rt": lambda E, a: (ev_poly(pairpoly(E.sint(a[0]), 0), i + 1) + shift.get(("rt", i, E.sint(a[0])), 0)) % PRIME,
               "r2t": lambda E, a: (ev_poly(pairpoly(E.sint(a[0]), 1), i + 1) + shift.get(("r2t", i, E.sint(a[0])), 0)) % PRIME}
        return penv(N, th, i, seed=seed, n=m, vals=vals, lens=lens, appfn=app, names=(), bools=bools)
    def system(self, N, th, seed=1, m=None, zero=(), shift=None, go=True):
        S = System(self.run, range(N), lambda i: self.env(N, th, i, seed, m, zero, shift))
        return S.go() if go else S
    def results(self, S, N):
        return [okval(S.p[i].E, S.ret(i)) for i in range(N)]
    def arg(self, seed, zero=()):
        return lambda name, k=None: 0 if name in zero else self.secret(seed, name, k)

    # -------------------------------------------------------- rules
    def correct(self, rule):
        """every party gets the value / a share of degree t of the value `want` prescribes"""
        def test():
            vec = any(k in ("shv", "pshv", "rawv") for _, k in self.params)
            for N, th in self.cases:
                for m in ([0, 1, 3] + (self.sizes() if (N, th) in self.cases[:2] else []) if vec else (3,)):
                    try:
                        S = self.system(N, th, 2, m)
                    except Deadlock as e:
                        return "%s (%d parties, threshold %d)" % (e, N, th)
                    if S.failed():
                        p, fl = S.failed()[0]
                        return "party %d fails (%s at %s) with %d parties, threshold %d, %d elements" % (p, fl[0], fl[2], N, th, m)
                    want = self.want(self.arg(2), m)
                    rs = self.results(S, N)
                    w = self.shape(S, rs, want, N, th)
                    if w:
                        return "%s (%d parties, threshold %d, %d elements)" % (w, N, th, m)
        self.cx.decide(self.f, rule, test, "for (n,t) in %s" % (self.cases,))
    def shape(self, S, rs, want, N, th):
        if isinstance(want, tuple):
            for q, (o, w) in enumerate(zip(self.outs, want)):
                r = self.shape1(S, [x.f[q] for x in rs], w, N, th, o)
                if r:
                    return r
            return None
        return self.shape1(S, rs, want, N, th, self.outs)
    def shape1(self, S, rs, want, N, th, outs):
        vec = isinstance(want, list)
        rows = [[S.p[i].E.num(x) % PRIME for x in S.p[i].E.seq(v)] if vec else [S.p[i].E.num(v) % PRIME] for i, v in enumerate(rs)]
        want = want if vec else [want]
        if any(len(r) != len(want) for r in rows):
            return "gives %s elements where %d are required" % (sorted({len(r) for r in rows}), len(want))
        for k, w in enumerate(want):
            ys = [r[k] for r in rows]
            if outs == "open":
                if any(y != w % PRIME for y in ys):
                    return "element %d: a party obtains another value than the shared one" % k
            else:
                c = poly_coeffs(list(range(1, N + 1)), ys)
                if c[0] != w % PRIME:
                    return "element %d: the result does not share the required value" % k
                if any(c[th + 1:]):
                    return "element %d: the result is not a sharing of degree t" % k
    def sends(self, S):
        out = {}
        for p in S.p.values():
            for (net, to), l in p.sent.items():
                out[(p.i, to)] = [flat(p.E, payload(p.E, x)) for x in l]
        return out
    def sizes(self, top=300):
        """batch sizes looked at: small ones and, for every number the summary compares with or divides by, those around it"""
        if self._sizes is None:
            l = set()
            if any(k in ("shv", "pshv", "rawv") for _, k in self.params):
                for c in critical(self.run.ret, self.run.ev):
                    if c <= top:
                        l |= {c, c + 1, 2 * c + 1}
            self._sizes = sorted(l)[-6:] if len(l) > 6 else sorted(l)
        return self._sizes
    def masked(self, rule):
        """what is sent depends on a local product only through its sum with the degree-2t half of a pair of its own"""
        def test():
            for N, th, m in [(N, th, 3) for N, th in self.cases[:4]] + [(3, 1, m) for m in self.sizes()]:
                base = self.sends(self.system(N, th, 3, m))
                names = [(n, k) for n, kd in self.params for k in (range(m) if kd == "rawv" else (None,)) if kd in ("raw", "rawv")]
                d = hnum("shift")
                for i in range(N):
                    moved = lambda key: frozenset((ch, r, q, v) for ch, r, q, v in delta(base, self.sends(self.system(N, th, 3, m, shift={key: d}))))
                    pairs = {}
                    for pr in range(len(names) + 1):
                        v = moved(("r2t", i, pr))
                        if v:
                            pairs.setdefault(v, []).append(pr)
                    for name, k in names:
                        v = moved(("in", i, name, k))
                        # the same messages depend, in the same way, on one pair, which masks nothing else
                        if v and v not in pairs:
                            return "a message depends on the product%s of party %d other than through its sum with the r_2t of a pair of its own (%d parties, threshold %d)" % ("" if k is None else " %d of %d" % (k, m), i, N, th)
        self.cx.decide(self.f, rule, test)
    def fails_on(self, zeros, rule):
        """a zero divisor makes every party return an error"""
        def test():
            for N, th in self.cases[:3]:
                for z in zeros:
                    S = self.system(N, th, 6, 3, zero=z)
                    for p in S.p.values():
                        if p.fail is None:
                            return "party %d of %d gets a result from a zero divisor" % (p.i, N)
                        if p.fail[0] != "err":
                            return "party %d of %d panics on a zero divisor (at %s)" % (p.i, N, p.fail[2])
        self.cx.decide(self.f, rule, test)
    def opened_masked(self, rule):
        """the polynomial whose values the parties send has the constant term a * (value of a pair), each pair used once"""
        def test():
            for N, th, m in [(N, th, 3) for N, th in self.cases] + [(N, th, m) for N, th in self.cases[:2] for m in self.sizes()]:
                S = self.system(N, th, 7, m)
                sent = self.sends(S)
                used = set()
                rounds = len({(a, b): 1 for (a, b), l in sent.items()}) and max(len(l) for l in sent.values())
                vec = any(k == "shv" for _, k in self.params)
                for r in range(rounds):
                    rows = {}
                    for (i, to), l in sent.items():
                        if r < len(l):
                            row = l[r] if isinstance(l[r], list) else [l[r]]
                            if i in rows and rows[i] != row:
                                return "a party sends different values to the others in one round"
                            rows[i] = row
                    for k in range(len(next(iter(rows.values())))):
                        xs = sorted(rows)
                        c = poly_coeffs([x + 1 for x in xs], [rows[x][k] for x in xs])
                        a = self.secret(7, "a", k if vec else None)
                        ok_ = [q for q in range(3 * m + 3) if c[0] == a * hnum("pair", 7, q) % PRIME]
                        if not ok_:
                            return "opens something else than the product of the input and a fresh random value (%d parties, threshold %d)" % (N, th)
                        if ok_[0] in used:
                            return "two inputs are masked with the same random value"
                        used.add(ok_[0])
        self.cx.decide(self.f, rule, test)
    def matched(self, rule, sym_=True):
        """no waiting cycle, as many messages awaited as sent, and (symmetric rounds) all sends before the first receive"""
        def test():
            vec = any(k in ("shv", "pshv", "rawv") for _, k in self.params)
            for N, th, m in [(N, th, m) for N, th in self.cases for m in ((3, 0, 1) if vec else (3,))] + [(N, th, m) for N, th in self.cases[:2] for m in self.sizes()]:
                try:
                    S = self.system(N, th, 4, m)
                except Deadlock as e:
                    return "%s (%d parties, threshold %d)" % (e, N, th)
                um = S.unmatched()
                if um:
                    return "party %d sends %d messages to party %d, which waits for %d (%d parties, threshold %d)" % (um[0][0], um[0][2], um[0][1], um[0][3], N, th)
                if sym_:
                    w = sends_first(S)
                    if w:
                        return w
        self.cx.decide(self.f, rule, test)
    def rejects(self, rule, tampers=("drop", "extra", "empty")):
        tamper_rule(self.cx, self.f, rule, [("%d parties, threshold %d" % c, lambda c=c: self.system(c[0], c[1], 5, 2, go=False), c[0]) for c in self.cases[:3]], tampers)

def sends_first(S):
    for p in S.p.values():
        kinds = [a[0] for a in p.log]
        if "recv" in kinds and "send" in kinds[kinds.index("recv"):]:
            return "party %d of %d waits for a message of the round before it has sent all of its own" % (p.i, len(S.p))

def delta(a, b):
    """positions at which two sets of messages differ, and by how much"""
    out = []
    def go(ch, r, q, x, y):
        if isinstance(x, list):
            if len(x) != len(y):
                out.append((ch, r, q, "length"))
                return
            for j, (u, v) in enumerate(zip(x, y)):
                go(ch, r, q + (j,), u, v)
        elif x != y:
            out.append((ch, r, q, (y - x) % PRIME))
    for ch in a:
        go(ch, 0, (), a[ch], b[ch])
    return out

def payload(E, x):
    r = unser(E, [x])
    return x if r is None else r
def repack(E, x, new):
    return new if unser(E, [x]) is None else E.opaque(x.org[1], [new])
def flat(E, v):
    if isinstance(v, list):
        return [flat(E, x) for x in v]
    if isinstance(v, Agg) and v.key == t.TUP:
        return [flat(E, x) for x in v.f]
    return E.num(v) % PRIME

def lists_in(d):
    """paths of the element sequences of a message"""
    if isinstance(d, list):
        return [()]
    if isinstance(d, Agg):
        return [(i,) + p for i, x in enumerate(d.f) for p in lists_in(x)]
    return []
def rewrite(d, path, f):
    if not path:
        return f(d)
    g = list(d.f)
    g[path[0]] = rewrite(g[path[0]], path[1:], f)
    return Agg(d.key, d.var, g)
TAMPER = {"drop": lambda l: l[:-1] if l else l, "extra": lambda l: l + [hnum("extra")], "empty": lambda l: [], "more": lambda l: l + [hnum("x%d" % i) for i in range(40)]}

def tamper_rule(cx, f, rule, systems, tampers=("drop", "extra", "empty")):
    """every message with a wrong number of elements makes its receiver return an error"""
    def test():
        n = 0
        for name, mk_, N in systems:
            S0 = mk_().go()
            chans = [(i, (net, frm), k) for i, p in S0.p.items() for (net, frm), c in p.taken.items() for k in range(c)]
            for i, (net, frm), k in chans:
                d0 = S0.p[frm].sent[(net, i)][k]
                d = payload(S0.p[frm].E, d0)
                for path in lists_in(d):
                    for tm in tampers:
                        S = mk_()
                        new = rewrite(d, path, TAMPER[tm])
                        if len_at(new, path) == len_at(d, path):
                            continue
                        def tamper(S, me, fr, kk, dd):
                            x = payload(S.p[me].E, dd)
                            if (me, fr, kk) == (i, frm, k) and isinstance(at(x, path), list):
                                return repack(S.p[me].E, dd, rewrite(x, path, TAMPER[tm]))
                            return dd
                        S.tamper = tamper
                        try:
                            while not S.p[i].done:
                                S.advance(S.p[i])
                        except Deadlock:
                            pass
                        n += 1
                        fl = S.p[i].fail
                        if fl is None:
                            return "party %d accepts a message of party %d with %d elements where %d are required (%s)" % (i, frm, len_at(new, path), len_at(d, path), name)
                        if fl[0] != "err":
                            return "party %d panics (at %s) on a message of party %d with %d elements where %d are required (%s)" % (i, fl[2], frm, len_at(new, path), len_at(d, path), name)
        if not n:
            return "no message with a known number of elements is received"
    cx.decide(f, rule, test)
def at(d, path):
    for i in path:
        d = d.f[i] if isinstance(d, Agg) and i < len(d.f) else None
    return d
def len_at(d, path):
    x = at(d, path)
    return len(x) if isinstance(x, list) else None

def state_fields(cx):
    """field values of the protocol state of party i, as the conversion from the preprocessing makes it"""
    f = cx.meth1("ShamirState", "from", "From")
    q = cx.run(f, as_=("pre",))
    memo = {}
    def g(N, th, i, name="state"):
        if (N, th, i, name) not in memo:
            E = penv(N, th, i, names=("pre",))
            v = E.ev(q.ret)
            fs = cx.p.adts[v.key]["variants"][0][1]
            d = {}
            for (fname, *_), x in zip(fs, v.f):
                if isinstance(x, (int, list)):
                    d["%s.%s" % (name, fname)] = x
            memo[(N, th, i, name)] = d
        return memo[(N, th, i, name)]
    return g

NS = [("net", "net"), ("state", "state")]
def protos(cx, which):
    P_ = lambda *a, **k: Proto(cx, *a, **k)
    sq = lambda g, n, m: [g(n, k) for k in range(m)]
    table = {
        "degree_reduce_many": lambda: P_(NET + "degree_reduce_many", [("net", "net"), ("state", "state"), ("x", "rawv")], lambda g, m: sq(g, "x", m)),
        "degree_reduce": lambda: P_(NET + "degree_reduce", [("net", "net"), ("state", "state"), ("x", "raw")], lambda g, m: g("x")),
        "degree_reduce_point": lambda: P_(NET + "degree_reduce_point", [("net", "net"), ("state", "state"), ("x", "raw")], lambda g, m: g("x")),
        "mul": lambda: P_(A + "mul", [("a", "sh"), ("b", "sh")] + NS, lambda g, m: g("a") * g("b")),
        "mul_vec": lambda: P_(A + "mul_vec", [("a", "shv"), ("b", "shv")] + NS, lambda g, m: [x * y for x, y in zip(sq(g, "a", m), sq(g, "b", m))]),
        "scalar_mul": lambda: P_(PSH + "scalar_mul", [("a", "psh"), ("b", "sh")] + NS, lambda g, m: g("a") * g("b")),
        "open": lambda: P_(A + "open", [("a", "sh")] + NS, lambda g, m: g("a"), outs="open"),
        "open_vec": lambda: P_(A + "open_vec", [("a", "shv")] + NS, lambda g, m: sq(g, "a", m), outs="open"),
        "mul_open_vec": lambda: P_(A + "mul_open_vec", [("a", "shv"), ("b", "shv")] + NS, lambda g, m: [x * y for x, y in zip(sq(g, "a", m), sq(g, "b", m))], outs="open"),
        "open_point": lambda: P_(PSH + "open_point", [("a", "psh")] + NS, lambda g, m: g("a"), outs="open"),
        "open_half_point": lambda: P_(PSH + "open_half_point", [("a", "raw")] + NS, lambda g, m: g("a"), outs="open"),
        "open_point_many": lambda: P_(PSH + "open_point_many", [("a", "pshv")] + NS, lambda g, m: sq(g, "a", m), outs="open"),
        "open_point_and_field": lambda: P_(PSH + "open_point_and_field", [("a", "psh"), ("b", "sh")] + NS, lambda g, m: (g("a"), g("b")), outs=("open", "open")),
        "open_point_and_field_many": lambda: P_(PSH + "open_point_and_field_many", [("a", "pshv"), ("b", "shv")] + NS, lambda g, m: (sq(g, "a", m), sq(g, "b", m)), outs=("open", "open")),
        "inv": lambda: P_(A + "inv", [("a", "sh")] + NS, lambda g, m: inv_(g("a"))),
        "inv_vec": lambda: P_(A + "inv_vec", [("a", "shv")] + NS, lambda g, m: [inv_(x) for x in sq(g, "a", m)]),
        "div": lambda: P_(A + "div", [("a", "sh"), ("b", "sh")] + NS, lambda g, m: g("a") * inv_(g("b"))),
        "div_public_by_shared": lambda: P_(A + "div_public_by_shared", [("a", "pub"), ("b", "sh")] + NS, lambda g, m: g("a") * inv_(g("b"))),
    }
    return {w: table[w]() for w in which}

# ---------------------------------------------------------------- S06
def S06(cx):
    ps = protos(cx, ("degree_reduce_many", "degree_reduce", "degree_reduce_point", "mul", "mul_vec", "scalar_mul"))
    for n, p in ps.items():
        p.correct("%s returns a sharing of degree t of the product" % n)
    for n in ("degree_reduce_many", "degree_reduce", "degree_reduce_point"):
        ps[n].masked("%s sends only masked products" % n)

# ---------------------------------------------------------------- S07
OPENINGS = ("open", "open_vec", "mul_open_vec", "open_point", "open_half_point", "open_point_many", "open_point_and_field", "open_point_and_field_many")
def S07(cx):
    ps = protos(cx, OPENINGS)
    for n in OPENINGS:
        ps[n].correct("%s gives every party the shared value" % n)
    ps = protos(cx, ("inv", "inv_vec", "div", "div_public_by_shared"))
    for n, p in ps.items():
        p.correct("%s returns a sharing of the quotient" % n)
        z = "a" if n in ("inv", "inv_vec") else "b"
        p.fails_on([(z,)] + ([((z, 0),), ((z, 2),)] if n == "inv_vec" else []), "%s fails on zero" % n)
    for n in ("inv", "inv_vec"):
        ps[n].opened_masked("%s opens only the product of the input with a fresh random share" % n)

# ---------------------------------------------------------------- S08
def S08(cx):
    names = ("degree_reduce_many", "degree_reduce", "degree_reduce_point", "mul_vec", "open_vec", "mul_open_vec", "open_point_many", "open_point_and_field_many", "inv_vec")
    ps = protos(cx, names)
    for n in names:
        ps[n].rejects("%s rejects a message with another number of elements" % n)
    f = cx.meth1("ShamirPreprocessing", "new")
    r = prep(cx)
    tamper_rule(cx, f, "set-up rejects a message with another number of elements",
                [("%d parties, threshold %d" % (N, th), lambda N=N, th=th: prepared(r, N, th, 2, go=False), N) for N, th in ((3, 1), (4, 1), (6, 2))])

# ---------------------------------------------------------------- S09
def S09(cx):
    sym_ = OPENINGS + ("inv", "inv_vec")
    names = sym_ + ("degree_reduce_many", "degree_reduce", "degree_reduce_point", "mul", "mul_vec", "scalar_mul", "div", "div_public_by_shared")
    ps = protos(cx, names)
    for n in names:
        ps[n].matched("%s: sends and receives match" % n, n in sym_)
    f = cx.meth1("ShamirPreprocessing", "new")
    r = prep(cx)
    def test():
        for N, th in ((3, 1), (4, 1), (5, 2), (6, 2), (7, 3), (8, 2)) + tuple(x[:2] for x in around(r)):
            try:
                S = prepared(r, N, th, 2)
            except Deadlock as e:
                return "%s (%d parties, threshold %d)" % (e, N, th)
            um = S.unmatched()
            if um:
                return "party %d sends %d messages to party %d, which waits for %d (%d parties, threshold %d)" % (um[0][0], um[0][2], um[0][1], um[0][3], N, th)
            for p in S.p.values():
                # rounds: exchange of seeds, then of the shares
                kinds = "".join("s" if a[0] == "send" else "r" for a in p.log)
                import re
                if len(re.findall("rs", kinds)) > 1:
                    return "party %d waits for a message of a round before it has sent all of its own (%d parties, threshold %d)" % (p.i, N, th)
    cx.decide(f, "set-up: sends and receives match, no waiting cycle", test)
