"""Randomness of the Shamir layer: freshness, forking, secrecy of correlated pairs, refills."""
from .common import *
from .shamir2 import penv, fval, prep, prepared, root, S12_CASES
from .shamir3 import Proto, payload, flat, state_fields
from ..system import unser

# ---------------------------------------------------------------- S11
def S11(cx):
    f = cx.meth1("ShamirState", "fork", "MpcState")
    r = cx.run(f, as_=("state", "n"))
    sa_, ra = adt_key(cx, "ShamirState"), adt_key(cx, "ShamirRng")
    sn = [x[0] for x in cx.p.adts[sa_]["variants"][0][1]]
    rn = [x[0] for x in cx.p.adts[ra]["variants"][0][1]]
    for need in ("r_t", "r_2t", "rng", "shared_rngs"):
        if need not in rn:
            raise Unclear(need)
    def cases(short=False):
        for N, th, L, n in ((3, 1, 5, 2), (5, 2, 4, 4), (4, 1, 6, 0), (7, 3, 3, 1), (6, 2, 2, 1)):
            for i in range(N):
                b = "state.rng_buffer."
                vals = {"n": n + (L + 1 if short else 0)}
                for k in range(L):
                    vals[b + "r_t[%d]" % k], vals[b + "r_2t[%d]" % k] = 1000 + k, 2000 + k
                lens = {b + "r_t": L, b + "r_2t": L, b + "shared_rngs": N - 1}
                # the generator shared by parties i and j
                for k in range(N - 1):
                    j = k if k < i else k + 1
                    vals[b + "shared_rngs[%d]" % k] = Agg("rng", 0, ["pair %d %d" % (min(i, j), max(i, j)), 0])
                vals[b + "rng"] = Agg("rng", 0, ["own %d" % i, 0])
                E = penv(N, th, i, vals=vals, lens=lens, n=3)
                E.L, E.n = L, n
                yield E
    cx.must_pass(f, "forking at most the available pairs succeeds", r.ev, cases, "fails although enough pairs are available")
    def few():
        for E in cases(True):
            if not E.fails(r.ev):
                return "gives a fork with more pairs than there are"
    cx.decide(f, "forking more pairs than available does not succeed", few)
    def parts(E):
        c, p = okval(E, E.ev(r.ret)), E.ev(r.after("state"))
        return c, p, fval(cx, c, "rng_buffer"), fval(cx, p, "rng_buffer")
    def same_():
        for E in cases():
            c, p, cb, pb = parts(E)
            for x in sn:
                if x == "rng_buffer":
                    continue
                a, b, o = fval(cx, c, x), fval(cx, p, x), E.sym("state." + x)
                if x == "generation_amount":
                    continue
                if E.dig(a) != E.dig(o) or E.dig(b) != E.dig(o):
                    return "%s of the fork or of the parent differs from that of the state forked" % x
            for x in rn:
                if x in ("r_t", "r_2t", "rng", "shared_rngs"):
                    continue
                o = E.sym("state.rng_buffer." + x)
                if E.dig(fval(cx, cb, x)) != E.dig(o) or E.dig(fval(cx, pb, x)) != E.dig(o):
                    return "%s of the fork or of the parent differs from that of the state forked" % x
    cx.decide(f, "a fork and its parent keep the parameters", same_)
    def pairs():
        for E in cases():
            c, p, cb, pb = parts(E)
            seen = []
            for who, b in (("fork", cb), ("parent", pb)):
                t1, t2 = nsh(E, fval(cx, b, "r_t")), nsh(E, fval(cx, b, "r_2t"))
                if [x - 1000 for x in t1] != [x - 2000 for x in t2]:
                    return "the %s holds halves of different pairs" % who
                if who == "fork" and len(t1) != E.n:
                    return "the fork gets %d pairs where %d were requested" % (len(t1), E.n)
                seen += t1
            if len(set(seen)) != len(seen):
                return "a pair is held by both the fork and the parent"
            if any(not 1000 <= x < 1000 + E.L for x in seen):
                return "a pair that is none of the parent's"
    cx.decide(f, "the pairs are split", pairs)
    def lock():
        # every party takes the same pairs
        by = {}
        for E in cases():
            c, p, cb, pb = parts(E)
            k = (E.N, E.t)
            v = (nsh(E, fval(cx, cb, "r_t")), nsh(E, fval(cx, pb, "r_t")))
            if by.setdefault(k, v) != v:
                return "the parties take different pairs"
    cx.decide(f, "all parties take the same pairs", lock)
    def gens():
        derived = {}
        for E in cases():
            c, p, cb, pb = parts(E)
            own = E.dig(fval(cx, cb, "rng"))
            rp, pp = genstate(fval(cx, pb, "rng"))
            rc, pc = genstate(fval(cx, cb, "rng"))
            if rp != "own %d" % E.id:
                return "the parent does not keep its generator"
            if used_up(E, rc, rp, pp):
                return "the fork's generator " + used_up(E, rc, rp, pp)
            sc, sp = E.seq(fval(cx, cb, "shared_rngs")), E.seq(fval(cx, pb, "shared_rngs"))
            if len(sc) != E.N - 1 or len(sp) != E.N - 1:
                return "generators are lost"
            for k in range(E.N - 1):
                j = k if k < E.id else k + 1
                nm = "pair %d %d" % (min(E.id, j), max(E.id, j))
                rp, pp = genstate(sp[k])
                if rp != nm:
                    return "the parent's generator shared with party %d is another one after the fork" % j
                rc, pc = genstate(sc[k])
                u = used_up(E, rc, rp, pp)
                if u:
                    return "the fork's generator for party %d %s" % (j, u)
                v = (E.dig(sc[k]), E.dig(sp[k]))
                if derived.setdefault((E.N, E.t, nm), v) != v:
                    return "two parties derive different generators from one they share"
    cx.decide(f, "the fork's generators are seeded by draws the parent never makes again", gens)

def genstate(v):
    n = 0
    while isinstance(v, Agg) and v.key == "rng":
        v, n = v.f[0], n + v.f[1]
    return v, n
def used_up(E, child, parent, pos):
    """a generator made from a draw of `parent` below its present position"""
    if not (isinstance(child, O) and child.org[0] == "app" and child.org[1] == "seeded"):
        return "is not freshly seeded"
    d = child.org[2][0]
    if not (isinstance(d, O) and d.org[0] == "app" and d.org[1] == "draw"):
        return "is not seeded by a draw"
    s, k = d.org[2]
    s, base = genstate(s)
    k += base
    if E.dig(s) != E.dig(parent):
        return "is seeded by a draw of another generator"
    if not E.sint(k) < E.sint(pos):
        return "is seeded by a draw that its parent makes again"

# ---------------------------------------------------------------- S13
S13_CASES = ((3, 1, 2), (4, 1, 2), (5, 2, 3))
def S13(cx):
    f = cx.meth1("ShamirPreprocessing", "new")
    r = prep(cx)
    def build(N, th, amount, delta=None):
        log, val, seeds = {}, {}, set()
        def app(i):
            def draw(E, a):
                k = E.dig(a)
                v = (hnum("draw", k) + (hnum("delta") if k == delta else 0)) % PRIME
                log.setdefault(i, {})[k] = E.dig(root_of(a[0]))
                val[v] = k
                return v
            def seeded(E, a):
                if type(a[0]) is int:
                    seeds.add(a[0] % PRIME)
                return None
            return {"draw": draw, "seeded": seeded}
        S = prepared(r, N, th, amount, appfn=app)
        rows = []
        for i in range(N):
            E = S.p[i].E
            rb = fval(cx, okval(E, S.ret(i)), "rng_buffer")
            rows.append((nsh(E, fval(cx, rb, "r_t")), nsh(E, fval(cx, rb, "r_2t"))))
        seen = {}
        for p in S.p.values():
            for (net, to), l in p.sent.items():
                for x in l:
                    fl = flat(p.E, payload(p.E, x))
                    seen.setdefault(to, []).extend(leaves(fl))
        return log, {val[s] for s in seeds if s in val}, rows, seen
    def test(N, th, amount):
        def go():
            log, seeddraws, rows, seen = build(N, th, amount)
            m = len(rows[0][0])
            alld = {k: rt for l in log.values() for k, rt in l.items()}
            vars_ = [k for k in alld if k not in seeddraws]
            jac = {}
            for k in vars_:
                _, _, r2, s2 = build(N, th, amount, k)
                jac[k] = ([[(a - b) % PRIME for x, y in ((r2[i][0], rows[i][0]), (r2[i][1], rows[i][1])) for a, b in zip(x, y)] for i in range(N)],
                          {i: [(a - b) % PRIME for a, b in zip(s2.get(i, []), seen.get(i, []))] for i in range(N)})
            import itertools
            for C in itertools.combinations(range(N), th):
                known = {rt for i in C for rt in log.get(i, {}).values()}
                un = [k for k in vars_ if alld[k] not in known]
                view = [sum((jac[k][1][i] for i in C), []) for k in un]
                full = [sum((jac[k][1][i] for i in C), []) + sum(jac[k][0], []) for k in un]
                free = (rank(full) - rank(view)) if un else 0
                if free < (th + 1) * m:
                    return "parties %s together know %d of %d dimensions of the masks (%d parties, threshold %d)" % (C, (th + 1) * m - free, (th + 1) * m, N, th)
        return go
    for N, th, am in (S13_CASES if cx.tier == "quick" else S13_CASES + ((6, 2, 3), (4, 1, 4))):
        cx.decide(f, "the correlated pairs of %d parties are uniform for any %d of them" % (N, th), test(N, th, am))
def root_of(v):
    while isinstance(v, Agg) and v.key == "rng":
        v = v.f[0]
    return v
def leaves(x):
    return [z for y in x for z in leaves(y)] if isinstance(x, list) else [x]

# ---------------------------------------------------------------- S10
GENS = ("rand_chacha::", "rand_core::block", "rand::rngs::")
def is_gen(ty):
    return isinstance(ty, tuple) and ty[0] == "adt" and (ty[1].startswith(GENS) or "Rng" in ty[1].split("::")[-1]) \
        and not ty[1].split("::")[-1] in ("ThreadRng", "OsRng") and not ty[1].startswith(("mpc_core", "co_"))
SOURCES = ("Rng::gen", "Rng::random", "RngCore::fill_bytes", "Rng::fill", "RngCore::next_u64", "RngCore::next_u32", "UniformRand::rand", "Network::recv", "SeedableRng::from_entropy", "OsRng", "getrandom")
def source(c):
    return c.p in SOURCES or c.p.startswith(("Rng::", "RngCore::")) or c.p.split("::")[-1] in ("recv_from", "recv_many", "getrandom", "from_entropy", "try_fill_bytes", "rand")
def S10_seeds(cx):
    from ..scan import World, ty_mentions
    W = World(cx.p)
    nseed = nclone = 0
    for f in W.fns():
        for c in W.view(f).calls:
            if c.ref is None:
                continue
            last = c.p.split("::")[-1]
            if last in ("seed_from_u64", "from_seed", "from_rng") and (c.ref.get("tr") or "").endswith("SeedableRng"):
                nseed += 1
                os_ = W.origins(f, c.args[0], stop=source)
                if not any(o[0] == "call" and source(o[1]) for o in os_) and not any(o[0] == "param" for o in os_):
                    cx.bad(f, "generators are seeded with randomness", "the generator made at %s is seeded with a value that no random source takes part in" % c.loc)
                elif last == "seed_from_u64":
                    cx.bad(f, "generators are seeded with randomness", "a generator is seeded with 64 bits only (%s)" % c.loc)
                else:
                    cx.good(f, "seed at %s" % c.loc.split(":")[0], "comes from a random source or a peer's seed")
            elif last in ("clone", "to_owned", "clone_from", "cloned") and c.ts and ty_mentions(cx.p, c.ts[0], is_gen):
                nclone += 1
                cx.bad(f, "generator states are not duplicated", "a generator is cloned at %s" % c.loc)
            elif last in ("read", "transmute_copy", "copy_nonoverlapping") and c.ts and ty_mentions(cx.p, c.ts[0], is_gen):
                cx.bad(f, "generator states are not duplicated", "a generator is copied at %s" % c.loc)
            elif any(x in c.ref["p"] for x in ("SmallRng", "StepRng", "XorShift", "Pcg", "mock::")):
                cx.bad(f, "generators are cryptographic", "uses %s at %s" % (c.ref["p"], c.loc))
            elif last in ("default", "new") and c.ts and is_gen(c.ts[0]):
                cx.bad(f, "generators are seeded with randomness", "a generator is made without a seed at %s" % c.loc)
    # generator types held by local structs derive no Clone / Copy
    for im in cx.p.impls:
        if im["trait"] and im["trait"].split("::")[-1] in ("Clone", "Copy") and im["self"][0] == "adt" and ty_mentions(cx.p, im["self"], is_gen):
            cx.bad(im["self"][1], "generator states are not duplicated", "a state holding a generator can be cloned")
    cx.good("workspace", "no generator is cloned", "%d functions, %d seedings" % (sum(1 for _ in W.fns()), nseed))

def refill_env(cx, r, N, th, i, S, held, gen_amount, extra=None):
    """state of party i with the generators a set-up leaves it with and `held` pairs"""
    E0 = S.p[i].E
    pre = okval(E0, S.ret(i))
    rb = fval(cx, pre, "rng_buffer")
    vals, lens = {}, {}
    b = "state.rng_buffer."
    for k, fld in enumerate(cx.p.adts[rb.key]["variants"][0][1]):
        if fld[0] in ("r_t", "r_2t"):
            base = 1000 if fld[0] == "r_t" else 2000
            vals[b + fld[0]] = [base + 10 * q for q in range(held)]
        else:
            vals[b + fld[0]] = rb.f[k]
    vals["state.generation_amount"] = gen_amount
    vals.update(extra or {})
    return penv(N, th, i, vals=vals, appfn={"entropy": lambda E, a: hnum("entropy", i, E.dig(a))})
def consistent(cx, S, N, th, pick, what):
    """pick(i) -> (list of r_t, list of r_2t) of party i"""
    rows = [pick(i) for i in range(N)]
    m = len(rows[0][0])
    if any(len(a) != m or len(b) != m for a, b in rows):
        return "the parties hold different numbers of pair halves %s" % what
    xs = list(range(1, N + 1))
    seen = set()
    for k in range(m):
        a, b = poly_coeffs(xs, [x[0][k] for x in rows]), poly_coeffs(xs, [x[1][k] for x in rows])
        if any(a[th + 1:]) or any(b[2 * th + 1:]) or a[0] != b[0]:
            return "pair %d %s is no double sharing of one value with degrees t and 2t" % (k, what)
        if a[0] in seen:
            return "the value of pair %d %s is that of another pair" % (k, what)
        seen.add(a[0])
def S10(cx):
    S10_seeds(cx)
    r = prep(cx)
    gp = cx.meth1("ShamirState", "get_pair")
    q = cx.run(gp, as_=("state", "net"))
    rd = cx.meth1("ShamirState", "rand")
    qr = cx.run(rd, as_=("state", "net"))
    cases = ((3, 1), (4, 1), (5, 2))
    base = {}
    def pre(N, th):
        if (N, th) not in base:
            base[(N, th)] = prepared(r, N, th, 1)
        return base[(N, th)]
    def buf(E, run_):
        rb = fval(cx, E.ev(run_.after("state")), "rng_buffer")
        return nsh(E, fval(cx, rb, "r_t")), nsh(E, fval(cx, rb, "r_2t")), rb
    for fn, run_, nm in ((gp, q, "get_pair"), (rd, qr, "rand")):
        def once():
            for N, th in cases:
                S0 = pre(N, th)
                taken = set()
                for i in range(N):
                    E = refill_env(cx, r, N, th, i, S0, 4, 1)
                    fl = E.fails(run_.ev)
                    if fl:
                        return "fails although pairs are there (%s at %s)" % (fl[0], fl[2])
                    v = okval(E, E.ev(run_.ret))
                    a, b, _ = buf(E, run_)
                    got = nsh(E, v.f[0]) if nm == "get_pair" else nsh(E, v)
                    if got not in (1000, 1010, 1020, 1030):
                        return "gives something else than the degree-t half of one of its pairs"
                    if nm == "get_pair" and nsh(E, v.f[1]) - 2000 != got - 1000:
                        return "gives halves of different pairs"
                    if got in a or got + 1000 in b:
                        return "a pair given out stays in the buffer"
                    if len(a) != 3 or sorted(a) != sorted(x - 1000 for x in b) or [x - 1000 for x in a] != [x - 2000 for x in b]:
                        return "the halves left in the buffer do not match"
                    taken.add(got)
                if len(taken) != 1:
                    return "different parties take different pairs"
        cx.decide(fn, "%s takes one pair, both halves of it, for good" % nm, once)
        def refill():
            for N, th in cases:
                S0 = pre(N, th)
                try:
                    S = System(run_, range(N), lambda i: refill_env(cx, r, N, th, i, S0, 0, 1)).go()
                except Deadlock as e:
                    return "when the buffer is empty: %s" % e
                if S.failed():
                    return "fails when the buffer is empty (%s)" % (S.failed()[0],)
                def pick(i):
                    E = S.p[i].E
                    v = okval(E, S.ret(i))
                    a, b, rb = buf(E, run_)
                    if nm == "get_pair":
                        return [nsh(E, v.f[0])] + a, [nsh(E, v.f[1])] + b
                    return a, b
                w = consistent(cx, S, N, th, pick, "made when the buffer is empty")
                if w:
                    return w + " (%d parties, threshold %d)" % (N, th)
                # nothing of what the set-up drew is drawn again
                E0 = S0.p[0].E
                old = nsh(E0, fval(cx, fval(cx, okval(E0, S0.ret(0)), "rng_buffer"), "r_t"))
                if set(old) & set(pick(0)[0]):
                    return "a refill gives the pairs of the set-up again"
        cx.decide(fn, "%s refills an empty buffer with fresh consistent pairs" % nm, refill)
    bt = cx.meth1("ShamirState", "buffer_triples")
    qb = cx.run(bt, as_=("state", "net", "num"))
    def topup():
        for N, th in cases:
            S0 = pre(N, th)
            for held, num_ in ((0, 1), (2, 3), (2, 2), (3, 1), (1, 5)):
                try:
                    S = System(qb, range(N), lambda i: refill_env(cx, r, N, th, i, S0, held, 1, {"num": num_})).go()
                except Deadlock as e:
                    return str(e)
                if S.failed():
                    return "fails (%s)" % (S.failed()[0],)
                new = []
                for i in range(N):
                    a, b, _ = buf(S.p[i].E, qb)
                    if len(a) < num_ or len(b) != len(a):
                        return "leaves %d pairs where %d are required" % (len(a), num_)
                    old = [k for k, x in enumerate(a) if x in (1000, 1010, 1020)]
                    if len(old) != held or any(b[k] - a[k] != 1000 for k in old):
                        return "pairs that were there are lost or mixed up"
                    new.append(([x for k, x in enumerate(a) if k not in old], [x for k, x in enumerate(b) if k not in old]))
                if num_ > held:
                    w = consistent(cx, S, N, th, lambda i: new[i], "added by buffer_triples")
                    if w:
                        return w
    cx.decide(bt, "buffer_triples tops the buffer up to the requested number", topup)
