"""G01, G02: the Poseidon2 permutation, plain and on Shamir shares."""
from .common import *
from ..evalt import O, Agg
from ..evalt import Undecided
from .groth import prover_contracts, A
from .algebra import Joint

POS = "mpc_core::gadgets::poseidon2::"
PERM = POS + "poseidon2_permutation::{impl#0}::"

def dims(Tn, D=5):
    return {"T": ("const", str(Tn)), "D": ("const", str(D))}

# ---------------------------------------------------------------- the permutation the parameters prescribe
class Ref:
    def __init__(self, seed, Tn, D, rf1, rp, rf2):
        self.seed, self.T, self.D, self.rf1, self.rp, self.rf2 = seed, Tn, D, rf1, rp, rf2
        # diag - 1 of the internal matrix; the hard-wired matrices of widths 2 and 3 demand these
        self.diag = {2: [1, 2], 3: [1, 1, 2]}.get(Tn) or [hnum("diag", seed, i) for i in range(Tn)]
        self.ext = [[hnum("rce", seed, r, i) for i in range(Tn)] for r in range(rf1 + rf2)]
        self.int = [hnum("rci", seed, r) for r in range(rp)]
    def vals(self, name="self"):
        d = {name + ".params." + k: v for k, v in dict(rounds_f_beginning=self.rf1, rounds_f_end=self.rf2, rounds_p=self.rp, t=self.T, d=self.D, mat_internal_diag_m_1=self.diag,
                                                       round_constants_external=self.ext, round_constants_internal=self.int).items()}
        return d
    def m4(self, x):
        M = ((5, 7, 1, 3), (4, 6, 1, 1), (1, 3, 5, 7), (1, 1, 4, 6))
        return [sum(a * b for a, b in zip(r, x)) % PRIME for r in M]
    def matext(self, x):
        n = self.T
        if n in (2, 3):
            s = sum(x)
            return [(v + s) % PRIME for v in x]
        b = [v for i in range(0, n, 4) for v in self.m4(x[i:i + 4])]
        if n == 4:
            return b
        s = [sum(b[l::4]) for l in range(4)]
        return [(v + s[i % 4]) % PRIME for i, v in enumerate(b)]
    def matint(self, x):
        s = sum(x)
        return [(v * d + s) % PRIME for v, d in zip(x, self.diag)]
    def rcext(self, x, r):
        return [(v + c) % PRIME for v, c in zip(x, self.ext[r])]
    def rcint(self, x, r):
        return [(x[0] + self.int[r]) % PRIME] + list(x[1:])
    def sb(self, v):
        return pow(v, self.D, PRIME)
    def external(self, x, r):
        return self.matext([self.sb(v) for v in self.rcext(x, r)])
    def internal(self, x, r):
        x = self.rcint(x, r)
        return self.matint([self.sb(x[0])] + x[1:])
    def perm(self, x):
        x = self.matext(x)
        for r in range(self.rf1):
            x = self.external(x, r)
        for r in range(self.rp):
            x = self.internal(x, r)
        for r in range(self.rf1, self.rf1 + self.rf2):
            x = self.external(x, r)
        return x
    def sboxes(self):
        return (self.rf1 + self.rf2) * self.T + self.rp

ROUNDS = ((1, 1, 1), (2, 3, 1), (1, 0, 3), (0, 2, 1))

def plain(cx, f, Tn, D, as_, want, rule, out, rs=(0,), rounds=ROUNDS):
    """value of the function at width T and exponent D against the reference"""
    r = cx.run(f, g=dims(Tn, D), as_=as_)
    term = r.ret if out == "ret" else r.after(out)
    def test():
        for seed, (a, b, c) in enumerate(rounds):
            ref = Ref(seed, Tn, D, a, b, c)
            for rr in rs if "r" in as_ else (None,):
                if rr is not None and rr >= (b if "internal" in f.key else a + c):
                    continue
                x = [hnum("in", seed, i) for i in range(Tn)]
                v = dict(ref.vals())
                v.update({"input[%d]" % i: y for i, y in enumerate(x)})
                if rr is not None:
                    v["r"] = rr
                E = Env(seed=seed, vals=v, lens={"input": Tn}, deflen=Tn, bools=honest)
                fl = E.fails(r.ev)
                if fl:
                    return "fails at width %d with (%d, %d, %d) rounds" % (Tn, a, b, c)
                got = E.ev(term)
                w = want(ref, x, rr)
                g = [E.num(y) % PRIME for y in E.seq(got)] if isinstance(w, list) else E.num(got) % PRIME
                if g != w:
                    return "computes another value than the Poseidon2 parameters prescribe at width %d, exponent %d, (%d, %d, %d) rounds%s" % (Tn, D, a, b, c, "" if rr is None else ", round %d" % rr)
    cx.decide(f, rule, test)

def fn_of(cx, name):
    for k, f in cx.p.fns.items():
        if k.startswith(POS) and k.endswith("}::" + name) and f.body:
            return f
    raise Missing(POS + name)

def G02(cx):
    """plain and shared permutation compute the permutation the parameters prescribe"""
    fn = lambda n: fn_of(cx, n)
    A, B = ("self", "input"), ("self", "input", "r")
    for Tn, D in ((2, 5), (3, 5), (4, 5), (8, 5), (12, 5), (16, 5), (20, 5), (24, 5), (3, 3), (3, 7), (2, 9)):
        small = Tn <= 4 or Tn == 16
        rule = "width %d, exponent %d" % (Tn, D)
        if D == 5:
            plain(cx, fn("matmul_external"), Tn, D, ("input",), lambda R, x, r: R.matext(x), "external matrix, " + rule, "input")
            plain(cx, fn("matmul_internal"), Tn, D, A, lambda R, x, r: R.matint(x), "internal matrix, " + rule, "input")
            plain(cx, fn("add_rc_external"), Tn, D, B, lambda R, x, r: R.rcext(x, r), "external round constants, " + rule, "input", rs=(0, 1, 2))
            plain(cx, fn("add_rc_internal"), Tn, D, B, lambda R, x, r: R.rcint(x, r), "internal round constants, " + rule, "input", rs=(0, 1, 2))
            plain(cx, fn("num_sbox"), Tn, D, ("self",), lambda R, x, r: R.sboxes(), "number of S-boxes, " + rule, "ret")
            plain(cx, fn("num_rounds"), Tn, D, ("self",), lambda R, x, r: R.rf1 + R.rp + R.rf2, "number of rounds, " + rule, "ret")
        if small:
            plain(cx, fn("external_round"), Tn, D, B, lambda R, x, r: R.external(x, r), "external round, " + rule, "input", rs=(0, 1, 2))
            plain(cx, fn("internal_round"), Tn, D, B, lambda R, x, r: R.internal(x, r), "internal round, " + rule, "input", rs=(0, 1, 2))
            plain(cx, fn("permutation_in_place"), Tn, D, A, lambda R, x, r: R.perm(x), "permutation, " + rule, "input")
            plain(cx, fn("permutation"), Tn, D, A, lambda R, x, r: R.perm(x), "permutation, " + rule, "ret")

# ---------------------------------------------------------------- the permutation on shares
def contracts(cx):
    c = prover_contracts(cx)
    keep = {meth(cx, "ShamirState", "rand"), meth(cx, "ShamirState", "get_pair"), NET + "degree_reduce", NET + "degree_reduce_many", A + "open", A + "open_vec"}
    return {k: v for k, v in c.items() if k in keep}
OFF, SPARE = 2, 2
class Shared:
    """a Shamir Poseidon2 function interpreted for all parties at once"""
    def __init__(self, cx, f, Tn, as_, perms=1):
        self.cx, self.f, self.T, self.as_, self.perms = cx, f, Tn, as_, perms
        self.r = cx.run(f, g=dims(Tn), as_=as_, ov=contracts(cx))
        self.sf = cx.p.adts[adt_key(cx, FS)]["variants"][0][1][0][0]
        self.out = self.r.after("input") if "input" in self.r.cells and "input" in as_ else self.r.ret
    def secret(self, seed, k):
        return hnum("secret", seed, k)
    def mask(self, seed, k):
        return hnum("mask", seed, k)
    def joint(self, N, th, seed, ref, rr=None, num=None, shift=None):
        J = Joint.__new__(Joint)
        J.n, J.t, J.seed = N, th, seed
        def mkenv(i):
            vals, lens = dict(ref.vals()), {}
            m = self.T * self.perms
            lens["input"] = m
            for k in range(m):
                vals["input[%d].%s" % (k, self.sf)] = J.share(self.secret(seed, k) + (1 if shift == ("in", k) else 0), ("in", k), i)
            cnt = OFF + ref.sboxes() * self.perms + SPARE
            for e, nm in enumerate(("r", "r2", "r3", "r4", "r5")):
                lens["precomp." + nm] = cnt
                for k in range(cnt):
                    vals["precomp.%s[%d].%s" % (nm, k, self.sf)] = J.share(pow(self.mask(seed, k), e + 1, PRIME) + (1 if shift == (nm, k) else 0), (nm, k), i)
            vals["precomp.offset"] = OFF
            if rr is not None:
                vals["r"] = rr
            if num is not None:
                vals["num_poseidon"] = num
            vals.update({"state.id": i, "state.num_parties": N, "state.threshold": th, "ghost pairs": 0})
            return Env(seed=seed, vals=vals, lens=lens, deflen=m, bools=honest, appfn={"netid": lambda E, a: i})
        Joint.__init__(J, N, th, mkenv, seed)
        return J
    def each(self, rounds, cases, rs):
        for N, th in cases:
            for seed, (a, b, c) in enumerate(rounds):
                ref = Ref(seed, self.T, 5, a, b, c)
                for rr in rs:
                    if rr is not None and rr >= (b if "internal" in self.f.key else a + c):
                        continue
                    yield N, th, seed, ref, rr, " (width %d, %d parties, (%d, %d, %d) rounds%s)" % (self.T, N, a, b, c, "" if rr is None else ", round %d" % rr)
    def seq(self):
        def f(E):
            v = E.ev(self.out)
            if "input" not in self.r.cells:
                v = okval(E, v)
            return E.seq(v)
        return f
    def correct(self, want, rule, rounds=((1, 1, 1), (1, 2, 0)), cases=((3, 1), (5, 2)), rs=(None,)):
        def test():
            for N, th, seed, ref, rr, tag in self.each(rounds, cases, rs):
                J = self.joint(N, th, seed, ref, rr)
                b = J.eval(lambda E: E.fails(self.r.ev))
                if any(b):
                    return "fails (%s)%s" % ([z for z in b if z][0][2], tag)
                x = [self.secret(seed, k) for k in range(self.T * self.perms)]
                w = [y for q in range(self.perms) for y in want(ref, x[q * self.T:(q + 1) * self.T], rr)]
                g = J.secret(self.seq(), th)
                if J.why:
                    return J.why[0] + tag
                if g is None or None in g:
                    return "the result is not a sharing of degree t" + tag
                if g != w:
                    return "the result shares another value than the plain permutation computes" + tag
                if "precomp" in self.r.cells:
                    used = ref.sboxes() * self.perms if rr is None else 1 if "internal" in self.f.key else self.T
                    for i, got in enumerate(J.numbers(fget(self.cx, self.r.after("precomp"), "offset", "Poseidon2Precomputations"))):
                        if got != OFF + used:
                            return "moves the offset of the precomputed masks by %d where %d masks are used%s" % (got - OFF, used, tag)
        self.cx.decide(self.f, rule, test)
    def comm(self, J):
        """communication of all parties: (kind, value of each party) in order"""
        tr = J.eval(lambda E: [(e[1], nsh(E, e[4])) for e in E.trace(self.r.ev, kinds=("comm",)) or ()])
        if len({tuple(k for k, _ in x) for x in tr}) > 1:
            raise Undecided("the parties communicate differently")
        return [(z[0][0], [v for _, v in z]) for z in zip(*tr)]
    def opened(self, J):
        out = []
        for k, vs in self.comm(J):
            if k.startswith("open"):
                rows = [v if isinstance(v, list) else [v] for v in vs]
                out += [interp_at(list(range(1, J.n + 1)), list(ys)) for ys in zip(*rows)]
        return out
    def consumed(self, J):
        return sum(len(vs[0]) if isinstance(vs[0], list) else 1 for k, vs in self.comm(J) if k in ("rand", "dr", "drv", "drp"))
    def masked(self, rule, rounds=((1, 1, 1), (2, 1, 0)), cases=((3, 1),), rs=(None,)):
        """every opened value contains the mask of one position, no position masks two values"""
        def test():
            for N, th, seed, ref, rr, tag in self.each(rounds, cases, rs):
                base = self.opened(self.joint(N, th, seed, ref, rr))
                if "precomp" not in self.r.cells:
                    if base:
                        return "opens a value that nothing masks" + tag
                    continue
                owner = {}
                for k in range(OFF + ref.sboxes() * self.perms + SPARE):
                    o = self.opened(self.joint(N, th, seed, ref, rr, shift=("r", k)))
                    # later openings move with earlier ones: the first that moves is the one that is masked
                    mv = [j for j, (u, v) in enumerate(zip(base, o)) if u != v]
                    if not mv:
                        continue
                    if k < OFF:
                        return "uses a mask from before the offset" + tag
                    j = mv[0]
                    if (o[j] - base[j]) % PRIME != PRIME - 1:
                        return "opens something else than a value minus a mask" + tag
                    if j in owner:
                        return "masks one opened value twice" + tag
                    owner[j] = k
                if len(owner) != len(base):
                    return "%d opened values, but %d of them have a mask of their own%s" % (len(base), len(owner), tag)
        self.cx.decide(self.f, rule, test)
    def within(self, rule, precomputed, per):
        """uses no more pairs than rand_required says"""
        q = self.cx.run(fn_of(self.cx, "rand_required"), g=dims(self.T), as_=("self", "num_poseidon", "precomputation"))
        def test():
            for N, th, seed, ref, rr, tag in self.each(((1, 1, 1), (2, 3, 0), (0, 2, 1)), ((3, 1),), (None,)):
                for num in per:
                    J = self.joint(N, th, seed, ref, rr, num=num)
                    b = J.eval(lambda E: E.fails(self.r.ev))
                    if any(b):
                        return "fails (%s)%s" % ([z for z in b if z][0][2], tag)
                    E = Env(seed=seed, vals={**ref.vals(), "num_poseidon": num if num is not None else self.perms, "precomputation": precomputed}, bools=lambda v: honest(v))
                    if E.fails(q.ev):
                        return "rand_required fails" + tag
                    have, used = E.num(E.ev(q.ret)), self.consumed(J)
                    if used > have:
                        return "uses %d correlated pairs where rand_required says %d for %d permutations%s" % (used, have, num if num is not None else self.perms, tag)
        self.cx.decide(self.f, rule, test)
def shared(cx, name, Tn, as_, perms=1):
    return Shared(cx, fn_of(cx, name), Tn, as_, perms)
SN = ("net", "state")
def G02s(cx):
    per = lambda R, x, r: R.perm(x)
    full = cx.tier == "thorough"
    for Tn in (2, 3, 4):
        rule = "shares of the plain permutation, width %d" % Tn
        kw = {} if full or Tn == 3 else dict(rounds=((1, 1, 1),), cases=((3, 1),))
        P = ("self", "input", "precomp") + SN
        shared(cx, "shamir_permutation_in_place", Tn, ("self", "input") + SN).correct(per, rule, **kw)
        shared(cx, "shamir_permutation_with_precomputation", Tn, P).correct(per, rule, **kw)
        shared(cx, "shamir_permutation_with_precomputation_packed", Tn, P, 2).correct(per, rule, **kw)
        shared(cx, "matmul_external_shamir", Tn, ("input",)).correct(lambda R, x, r: R.matext(x), rule)
        if Tn != 3 and not full:
            continue
        shared(cx, "shamir_permutation", Tn, ("self", "input") + SN).correct(per, rule, **kw)
        shared(cx, "shamir_permutation_in_place_with_precomputation", Tn, P).correct(per, rule, **kw)
        shared(cx, "shamir_permutation_in_place_with_precomputation_packed", Tn, P, 2).correct(per, rule, **kw)
        shared(cx, "shamir_external_round_precomp", Tn, ("self", "input", "r", "precomp") + SN).correct(lambda R, x, r: R.external(x, r), rule, rs=(0, 1, 2))
        shared(cx, "shamir_internal_round_precomp", Tn, ("self", "input", "r", "precomp") + SN).correct(lambda R, x, r: R.internal(x, r), rule, rs=(0, 1, 2))
        if True:
            for q in (0, 1, 3):
                if not full and q == 0:
                    continue
                kw = kw if full else dict(rounds=((1, 1, 1),), cases=((3, 1),))
                shared(cx, "shamir_permutation_in_place_with_precomputation_packed", Tn, P, q).correct(per, rule, **kw)
                shared(cx, "shamir_permutation_with_precomputation_packed", Tn, P, q).correct(per, rule, **kw)

def precomputation(cx, Tn, nums=(0, 1, 2)):
    """precompute_shamir: one fresh random value per S-box of every permutation, with its powers"""
    S = shared(cx, "precompute_shamir", Tn, ("self", "num_poseidon", "net", "state"))
    S.within("the precomputation uses no more pairs than rand_required says, width %d" % Tn, True, (0, 1, 2, 5))
    P3 = lambda n: fget(cx, S.r.ok(), n, "Poseidon2Precomputations")
    def test():
        if S.r.ok() is None:
            return "never returns"
        for N, th, seed, ref, rr, tag in S.each(((1, 1, 1), (1, 2, 0)), ((3, 1), (5, 2)), (None,)):
            for num in nums:
                J = S.joint(N, th, seed, ref, rr, num=num)
                b = J.eval(lambda E: E.fails(S.r.ev))
                if any(b):
                    return "fails (%s)%s" % ([z for z in b if z][0][2], tag)
                want = ref.sboxes() * num
                cols = []
                for nm in ("r", "r2", "r3", "r4", "r5"):
                    x = P3(nm)
                    v = J.secret(lambda E: E.seq(E.ev(x)), th)
                    if v is None or None in v:
                        return "%s is no sharing of degree t%s" % (nm, tag)
                    if len(v) != want:
                        return "%s has %d elements where %d permutations have %d S-boxes%s" % (nm, len(v), num, want, tag)
                    cols.append(v)
                for k, row in enumerate(zip(*cols)):
                    for e, y in enumerate(row):
                        if y != pow(row[0], e + 1, PRIME):
                            return "element %d of r%s is not the power %d of the mask%s" % (k, e + 1, e + 1, tag)
                rts = {J.secret_rt(k): k for k in range(4 * want + 4)}
                src = [rts.get(y) for y in cols[0]]
                if None in src:
                    return "a mask is not a value of the shared randomness" + tag
                if len(set(src)) != len(src):
                    return "two S-boxes get the same mask" + tag
                used = S.opened(J)
                if used:
                    return "opens a value" + tag
                if set(J.numbers(P3("offset"))) != {0}:
                    return "does not start at the first mask" + tag
                if J.why:
                    return J.why[0] + tag
    cx.decide(S.f, "one fresh mask and its powers for every S-box of every permutation, width %d" % Tn, test)

def G01(cx):
    """the precomputation covers all S-boxes, no mask is used twice, rand_required is enough"""
    # accessors of the precomputation
    g = {n: cx.meth1("Poseidon2Precomputations", n) for n in ("get", "get_r", "get_offset", "increment_offset", "consumed")}
    runs = {n: cx.run(f, as_=("self", "k")) for n, f in g.items()}
    names = ("r", "r2", "r3", "r4", "r5")
    def env(k, off=1, n=4):
        v = {"self.%s[%d]" % (x, j): hnum(x, j) for x in names for j in range(n)}
        v.update({"self.offset": off, "k": k})
        return Env(vals=v, lens={"self." + x: n for x in names}, deflen=n, bools=honest)
    def acc():
        for k in range(4):
            E = env(k)
            if E.fails(runs["get"].ev) or E.fails(runs["get_r"].ev):
                return "an accessor fails on a position that exists"
            if [E.num(x) % PRIME for x in E.ev(runs["get"].ret).f] != [hnum(x, k) for x in names]:
                return "get does not return the mask and its powers at the position"
            if E.num(E.ev(runs["get_r"].ret)) % PRIME != hnum("r", k):
                return "get_r does not return the mask at the position"
            if E.num(E.ev(runs["get_offset"].ret)) != 1:
                return "get_offset is not the offset"
            inc = fget(cx, runs["increment_offset"].after("self"), "offset", "Poseidon2Precomputations")
            if E.num(E.ev(inc)) != 1 + k:
                return "increment_offset does not add the increment"
        for off in range(6):
            E = env(0, off)
            if E.bool(E.ev(runs["consumed"].ret)) != (off >= 4):
                return "consumed is wrong at offset %d of 4" % off
    cx.decide(g["get"], "accessors of the precomputation", acc)
    for Tn in (2, 3):
        precomputation(cx, Tn)
    P1 = ("self", "input", "precomp") + SN
    S = shared(cx, "shamir_permutation_in_place_with_precomputation", 3, P1)
    S.masked("every opened value has a mask of its own")
    S.within("no pairs beyond those of the precomputation", True, (None,))
    S = shared(cx, "shamir_permutation_in_place_with_precomputation_packed", 3, P1, 2)
    S.masked("every opened value has a mask of its own (packed)", ((1, 1, 1),))
    S = shared(cx, "shamir_permutation_in_place", 3, ("self", "input") + SN)
    S.masked("nothing is opened without precomputation")
    S.within("the permutation uses no more pairs than rand_required says", False, (None,))
_G02 = G02
def G02(cx):
    """plain and shared permutation compute the permutation the parameters prescribe"""
    _G02(cx)
    G02s(cx)
