"""Sharing, reconstruction, set-up, degree reduction and openings of the Shamir layer."""
from .common import *
from ..spec import critical

def penv(N, th, i, seed=1, n=3, vals=None, lens=None, appfn=None, names=("state", "self", "pre"), bools=honest, **kw):
    v, l = {}, {}
    for p in names:
        for q in ("", ".rng_buffer"):
            v[p + q + ".num_parties"], v[p + q + ".threshold"], v[p + q + ".id"] = N, th, i
        l[p + ".open_lagrange_t"], l[p + ".open_lagrange_2t"] = th + 1, 2 * th + 1
        l[p + ".mul_lagrange_2t"], l[p + ".mul_reconstruct_with_zeros"] = 2 * th + 1, th + 1
    v.update(vals or {})
    l.update(lens or {})
    E = Env(seed=seed, vals=v, lens=l, deflen=n, bools=bools, appfn={"netid": lambda E, a: i, **(appfn or {})}, **kw)
    E.N, E.t, E.id = N, th, i
    return E

# ---------------------------------------------------------------- S01
def draws_env(seed, delta=None, vals=None, lens=None, n=3, log=None, lenfn=None):
    """interpretation under which the draw called `delta` is moved by a fixed amount"""
    def draw(E, a):
        k = E.dig(a)
        if log is not None and k not in log:
            log[k] = root(a[0])
        return (hnum("draw", seed, k) + (hnum("delta") if k == delta else 0)) % PRIME
    return Env(seed=seed, vals=vals, lens=lens, deflen=n, bools=honest, appfn={"draw": draw}, lenfn=lenfn)
def root(v):
    """the generator a generator state was reached from"""
    while isinstance(v, Agg) and v.key == "rng":
        v = v.f[0]
    return v.path() if isinstance(v, O) else str(v)

def sharing_ok(cx, f, rule, got, ev, nsec, secret_of, rngname, cases):
    """got denotes, for every secret, the values at 1..n of a polynomial of degree <= t whose constant term is the secret and whose other
    coefficients are an invertible function of draws from the generator given"""
    def test():
        for n, th in cases:
            def coeffs(delta=None, log=None):
                E = draws_env(7 * n + th, delta, {"n": n, "degree": th}, None, nsec, log)
                if E.fails(ev):
                    return E, None
                sh = E.ev(got)
                sh = nsh(E, sh)
                return E, sh
            log = {}
            E, sh = coeffs(None, log)
            if sh is None:
                return "fails for %d parties and degree %d" % (n, th)
            rows = per_secret(sh, n, nsec)
            if rows is None:
                return "does not give one share of each value to each of %d parties" % n
            base = []
            for j, ys in enumerate(rows):
                cs = poly_coeffs(list(range(1, n + 1)), ys)
                if cs[0] != E.num(E.ev(secret_of(j))) % PRIME:
                    return "the constant coefficient is not the secret (%d parties, degree %d)" % (n, th)
                if any(cs[th + 1:]):
                    return "the polynomial has a degree above %d" % th
                base.append(cs[1:th + 1])
            if any(r != rngname for r in log.values()):
                return "coefficients come from %s, not from the caller's generator" % sorted(set(log.values()))
            jac = []
            for d in log:
                E2, sh2 = coeffs(d)
                r2 = per_secret(sh2, n, nsec)
                row = []
                for ys, b in zip(r2, base):
                    cs = poly_coeffs(list(range(1, n + 1)), ys)
                    row += [(x - y) % PRIME for x, y in zip(cs[1:th + 1], b)]
                jac.append(row)
            want = th * len(rows)
            if th and (not jac or rank(jac) < want):
                return "%d coefficients depend on only %d independent draws (%d parties, degree %d)" % (want, rank(jac) if jac else 0, n, th)
        return None
    cx.decide(f, rule, test, "secret at 0, degree t, coefficients a full-rank function of fresh draws, for %s" % (cases,))

def per_secret(sh, n, nsec):
    if nsec is None or not isinstance(sh[0], list):
        return [sh] if len(sh) == n else None
    if len(sh) != n or any(len(x) != nsec for x in sh):
        return None
    return [[sh[p][j] for p in range(n)] for j in range(nsec)]

CASES = ((3, 1), (4, 1), (5, 2), (7, 3), (6, 2), (9, 4), (3, 0), (10, 6))
def S01(cx):
    for name in ("share_field_element", "share_curve_point", "share_field_elements", "share", "share_point"):
        f = cx.fn(SH + name)
        vec = name == "share_field_elements"
        names = ("secret", "n", "degree", "rng") if name in ("share", "share_point") else ("secret", "degree", "n", "rng")
        r = cx.run(f, as_=names)
        sec = (lambda j: idx(sym("secret"), num(j))) if vec else (lambda j: sym("secret"))
        for nsec in ((1, 3, 4) if vec else (None,)):
            sharing_ok(cx, f, "%s shares with exactly t fresh coefficients%s" % (name, " (%d values)" % nsec if vec else ""), r.ret, r.ev, nsec, sec, "rng", CASES if nsec in (None, 3) else CASES[:3])

# ---------------------------------------------------------------- S02
def S02(cx):
    for name, vec in (("combine_field_element", False), ("combine_curve_point", False), ("combine_field_elements", True)):
        f = cx.fn(SH + name)
        r = cx.run(f, as_=("shares", "coeffs", "degree"))
        def env(pts, degree, nsh, ncoef, seed=1, rows=3, ragged=None):
            vals = {"degree": degree}
            vals.update({"coeffs[%d]" % i: p for i, p in enumerate(pts)})
            def lenfn(v):
                if vec and v.org[0] == "idx" and v.org[1].path() == "shares":
                    return rows + (1 if v.org[2] == ragged else 0)
            return Env(seed=seed, vals=vals, lens={"shares": nsh, "coeffs": ncoef}, deflen=rows, bools=honest, lenfn=lenfn)
        good = [((1, 2, 3), 1, 3), ((1, 2), 1, 2), ((3, 1, 5, 2), 3, 4), ((2, 7, 4, 1, 9), 2, 5), ((5,), 0, 1), ((6, 4, 2), 0, 3), ((9, 8, 7, 6, 5, 4, 3), 6, 7)]
        def envs_():
            for pts, d, n in good:
                for rows in ((0, 1, 3) if vec else (3,)):
                    E = env(pts, d, n, n, rows=rows)
                    E.pts, E.d, E.rows = pts, d, rows
                    yield E
        def want(E):
            l = lag0(E.pts[:E.d + 1])
            S = E.sym("shares")
            def share(i, j=None):
                s = S.child("idx", i)
                if j is not None:
                    s = s.child("idx", j)
                return E.num(s.child("fld", 0, "a")) % PRIME
            if vec:
                return [sum(l[i] * share(i, j) for i in range(E.d + 1)) % PRIME for j in range(E.rows)]
            return sum(l[i] * share(i) for i in range(E.d + 1)) % PRIME
        cx.agree(f, "%s is the sum of the shares weighted with the Lagrange coefficients at zero of their parties" % name, r.ok(), want, envs_, r.ev)
        cx.must_pass(f, "%s accepts degree+1 or more shares" % name, r.ev, envs_, "fails although enough shares are given")
        def bad():
            for pts, d, n in good:
                yield env(pts, d, n, n - 1)
                if n > d + 1:
                    yield env(pts, d, n - 1, n)
                yield env(pts + (11, 12), d, n, n + 1)
                yield env(pts + (11, 12), d, n + 2, n + 1)
        cx.must_fail(f, "%s rejects share and index lists of different length" % name, r.ev, bad, "accepts a different number of shares and party indices")
        def few():
            for pts, d, n in good:
                for k in range(1 if not vec else 1, n + 1):
                    for dd in (k, k + 1, k + 3):
                        yield env(pts, dd, k, k)
        cx.must_fail(f, "%s rejects too few shares" % name, r.ev, few, "accepts at most `degree` shares")
        def none():
            yield env((), 0, 0, 0)
            yield env((), 2, 0, 0)
        cx.must_fail(f, "%s rejects an empty list" % name, r.ev, none, "accepts no shares")
        if vec:
            def ragged():
                for pts, d, n in good:
                    for k in range(n):
                        if n > 1:
                            yield env(pts, d, n, n, ragged=k)
            cx.must_fail(f, "%s rejects vectors of different lengths" % name, r.ev, ragged, "accepts vectors of different lengths")
    f = cx.fn(SH + "lagrange_from_coeff")
    r = cx.run(f, as_=("coeffs",))
    def lenvs():
        for pts in ((1, 2), (3, 1, 2), (4, 5, 1, 2, 9), (7,)):
            E = Env(vals={"coeffs[%d]" % i: p for i, p in enumerate(pts)}, lens={"coeffs": len(pts)}, bools=honest)
            E.pts = pts
            yield E
    cx.agree(f, "lagrange_from_coeff gives the Lagrange coefficients at zero", r.ret, lambda E: lag0(E.pts), lenvs, r.ev)
    for name in ("reconstruct", "reconstruct_point"):
        f = cx.fn(SH + name)
        r = cx.run(f, as_=("shares", "lagrange"))
        v = fresh_iv()
        cx.same(f, name + " is the inner product", r.ret, summ(length(sym("shares")), v, mul(idx(sym("shares"), v), idx(sym("lagrange"), v))), envs(n=4), r.ev)

# ---------------------------------------------------------------- S03
def net_events(evs):
    for e in evs:
        if e[0] in ("send", "recv"):
            return True
        if e[0] == "alt" and (net_events(e[2]) or net_events(e[3])):
            return True
        if e[0] == "loop" and net_events(e[3]):
            return True
    return False
TN_BAD = ((2, 1), (3, 2), (4, 2), (1, 1), (5, 3), (6, 3), (10, 5))
TN_GOOD = ((3, 1), (4, 1), (5, 2), (7, 3), (6, 2), (1, 0), (2, 0))
def S03(cx):
    f = cx.meth1("ShamirPreprocessing", "new")
    # the contract of ShamirRng::new / buffer_triples is not needed: only what happens before anything is sent
    r = prep(cx)
    def small():
        for N, th in TN_BAD:
            for i in range(min(N, 3)):
                yield penv(N, th, i, vals={"n": N, "t": th, "amount": 4})
    cx.must_fail(f, "set-up rejects n < 2t+1", r.ev, small, "accepts a threshold too large for the number of parties")
    def silent():
        for E in small():
            out = []
            E.trace(r.ev, out=out)
            if out:
                return "sends or receives before rejecting n < 2t+1"
    cx.decide(f, "nothing is sent before n >= 2t+1 is checked", silent)
    def params():
        for N, th in ((3, 1), (5, 2), (4, 1)):
            S = prepared(r, N, th, 2)
            for i in range(N):
                v = okval(S.p[i].E, S.ret(i))
                for name, want in (("id", i), ("num_parties", N), ("threshold", th)):
                    if S.p[i].E.sint(fval(cx, v, name)) != want:
                        return "the prepared state carries a wrong %s (party %d of %d, threshold %d)" % (name, i, N, th)
    cx.decide(f, "a prepared state carries the parameters it was set up with", params)
    # the state made of it
    f = cx.meth1("ShamirState", "from", "From")
    q = cx.run(f, as_=("pre",))
    def each(field_, want, what):
        def test():
            for N, th in TN_GOOD:
                for i in range(N):
                    E = penv(N, th, i)
                    fl = E.fails(q.ev)
                    if fl:
                        return "fails for %d parties, threshold %d (%s at %s)" % (N, th, fl[0], fl[2])
                    v = E.ev(q.ret)
                    got = fval(cx, v, field_)
                    w = want(N, th, i)
                    got = [E.num(x) % PRIME for x in E.seq(got)] if isinstance(w, list) else E.num(got) % PRIME
                    if got != w:
                        return "%s (party %d of %d, threshold %d)" % (what, i, N, th)
        cx.decide(f, "state field %s" % field_, test)
    each("id", lambda N, th, i: i, "wrong id")
    each("num_parties", lambda N, th, i: N, "wrong number of parties")
    each("threshold", lambda N, th, i: th, "wrong threshold")
    each("open_lagrange_t", lambda N, th, i: lag0([(i - k) % N + 1 for k in range(th + 1)]), "coefficients of other parties than those whose messages are received when opening")
    each("open_lagrange_2t", lambda N, th, i: lag0([(i - k) % N + 1 for k in range(2 * th + 1)]), "coefficients of other parties than those whose messages are received when opening a product")
    each("mul_lagrange_2t", lambda N, th, i: lag0(list(range(1, 2 * th + 2))), "coefficients of other parties than those the king hears")
    def zeros(N, th, i):
        pts = list(range(N - th + 1, N + 1))
        return poly_coeffs([0] + pts, [1] + [0] * th)
    each("mul_reconstruct_with_zeros", zeros, "not the polynomial that is 1 at zero and 0 at the last t parties")

def fval(cx, v, name):
    """field of an evaluated struct by name"""
    if isinstance(v, Agg):
        for i, f in enumerate(cx.p.adts[v.key]["variants"][0][1]):
            if f[0] == name:
                return v.f[i]
    raise Unclear("field %s" % name)
def prep(cx):
    f = cx.meth1("ShamirPreprocessing", "new")
    return cx.run(f, as_=("n", "t", "amount", "net"))
def prepared(r, N, th, amount, appfn=None, seed=1, go=True):
    def mk_(i):
        return penv(N, th, i, seed=seed, vals={"n": N, "t": th, "amount": amount},
                    appfn={"entropy": lambda E, a: hnum("entropy", i, E.dig(a)), **(appfn(i) if appfn else {})})
    S = System(r, range(N), mk_)
    return S.go() if go else S

# ---------------------------------------------------------------- S12
S12_CASES = ((3, 1, 4), (4, 1, 3), (5, 2, 4), (5, 1, 1), (6, 2, 3), (7, 3, 4), (7, 2, 2), (8, 3, 1))
def around(r):
    """cases around the numbers the set-up compares with or reduces by: as party counts, thresholds and amounts"""
    out = []
    for c in critical(r.ret, r.ev):
        if c <= 24:
            out += [(c + 2, 1, 2), (c + 2, (c + 1) // 2, 1)]
        if c <= 300:
            out += [(4, 1, c), (4, 1, 2 * c + 3)]
    return tuple(out[:8])
def S12(cx):
    f = cx.meth1("ShamirPreprocessing", "new")
    r = prep(cx)
    def test(N, th, amount):
        def go():
            try:
                S = prepared(r, N, th, amount)
            except Deadlock as e:
                return str(e)
            if S.failed():
                return "fails: %s" % (S.failed()[0],)
            um = S.unmatched()
            if um:
                return "party %d sends %d messages to party %d, which waits for %d" % (um[0][0], um[0][2], um[0][1], um[0][3])
            bufs = []
            for i in range(N):
                E = S.p[i].E
                rb = fval(cx, okval(E, S.ret(i)), "rng_buffer")
                bufs.append((nsh(E, fval(cx, rb, "r_t")), nsh(E, fval(cx, rb, "r_2t")), [E.dig(x) for x in E.seq(fval(cx, rb, "shared_rngs"))]))
            m = len(bufs[0][0])
            if any(len(b[0]) != m or len(b[1]) != m for b in bufs):
                return "the parties hold different numbers of pair halves"
            if m < amount:
                return "%d pairs are prepared where %d were requested" % (m, amount)
            xs = list(range(1, N + 1))
            consts = set()
            for k in range(m):
                a, b = poly_coeffs(xs, [p[0][k] for p in bufs]), poly_coeffs(xs, [p[1][k] for p in bufs])
                if any(a[th + 1:]):
                    return "the first halves of pair %d are not a sharing of degree t" % k
                if any(b[2 * th + 1:]):
                    return "the second halves of pair %d are not a sharing of degree 2t" % k
                if a[0] != b[0]:
                    return "the halves of pair %d share different values" % k
                if a[0] in consts or a[0] == 0:
                    return "pair %d repeats the value of another or is zero" % k
                consts.add(a[0])
            for i in range(N):
                for j in range(i + 1, N):
                    if bufs[i][2][j - 1] != bufs[j][2][i]:
                        return "the generator shared by parties %d and %d is clocked differently by them" % (i, j)
        return go
    for N, th, am in S12_CASES + around(r):
        cx.decide(f, "pairs of %d parties with threshold %d are consistent double sharings" % (N, th), test(N, th, am))
