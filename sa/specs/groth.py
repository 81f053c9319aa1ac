"""Collaborative Groth16: proof equations, drivers, witness maps, budgets, concurrency, verification."""
from .common import *
from .algebra import *
from .. import terms as t

G16 = "co_groth16::groth16::"
RED = G16 + "reduction::"
PLAIN = ("adt", "co_groth16::mpc::plain::PlainGroth16Driver", ())
SHAM = ("adt", "co_groth16::mpc::shamir::ShamirGroth16Driver", ())
DRV = "CircomGroth16Prover"
PNT = ((3, 1), (4, 1), (5, 2))

# ---------------------------------------------------------------- contracts of the layers below
def emitc(st, kind, net, state, what):
    st.emit("comm", kind, net, state, what)
def pc_rand(cx):
    def f(it, fr, st, a, args, loc):
        k = pair_count(it, st, args[0], ONE)
        emitc(st, "rand", sid(it, st, args[1]), sid(it, st, args[0]), ONE)
        return ok(fshare(cx, mk("app", "rt", k)))
    return f
def pc_pair(it, fr, st, a, args, loc):
    k = pair_count(it, st, args[0], ONE)
    emitc(st, "rand", sid(it, st, args[1]), sid(it, st, args[0]), ONE)
    return ok(tup(mk("app", "rt", k), mk("app", "rt2", k)))
def pc_dr(cx, wrap):
    def f(it, fr, st, a, args, loc):
        k = pair_count(it, st, args[1], ONE)
        v = V0(it, st, args[2])
        emitc(st, "dr", sid(it, st, args[0]), sid(it, st, args[1]), v)
        return ok(wrap(cx, mk("app", "dr", v, k)))
    return f
def pc_drv(cx):
    def f(it, fr, st, a, args, loc):
        v = V0(it, st, args[2])
        n = length(v)
        k = pair_count(it, st, args[1], n)
        emitc(st, "drv", sid(it, st, args[0]), sid(it, st, args[1]), v)
        x = mk("app", "drv", v, k)
        return ok(gen(n, lambda i: fshare(cx, idx(x, i))))
    return f
def pc_open(kind, val):
    """val: argument with the value opened; nets and states are told apart by their types"""
    def f(it, fr, st, a, args, loc):
        v = V0(it, st, args[val])
        nets = [sid(it, st, x) for k, x in enumerate(args) if k != val]
        emitc(st, kind, nets[0], nets[1], v)
        return ok(mk("app", kind, v))
    return f
def pc_openvec(kind, val):
    def f(it, fr, st, a, args, loc):
        v = V0(it, st, args[val])
        nets = [sid(it, st, x) for k, x in enumerate(args) if k != val]
        emitc(st, kind, nets[0], nets[1], v)
        x = mk("app", kind + "v", v)
        return ok(gen(length(v), lambda i: idx(x, i)))
    return f
def unwrap1(f):
    """openings of share records: the record's field is what is opened"""
    def g(it, fr, st, a, args, loc):
        return f(it, fr, st, a, args, loc)
    return g
def c_wmap(it, fr, st, a, args, loc):
    return ok(sym("h"))
def c_prep(cx):
    def f(it, fr, st, a, args, loc):
        # (num_parties, threshold, amount, net) -> a party's preprocessing with `amount` pairs
        st.emit("prep", args[0], args[1], args[2], sid(it, st, args[3]))
        return ok(mk("app", "prep", args[0], args[1], args[2]))
    return f
def c_from(cx):
    """ShamirState::from(preprocessing): the state of a party, named state0"""
    def f(it, fr, st, a, args, loc):
        v = V0(it, st, args[0])
        return cx.symval(it, st, ("adt", adt_key(cx, "ShamirState"), (("?",),)), "state0", {}, {}, ())
    return f
def c_fork(cx):
    def f(it, fr, st, a, args, loc):
        p = sid(it, st, args[0])
        c = ("g", "forks", p)
        n = next((i for i in range(64) if st.store.get(c, ZERO) is num(i)), None)
        if n is None:
            raise Unclear("a number of forks that depends on the input")
        st.store[c] = num(n + 1)
        ch = cx.symval(it, st, ("adt", adt_key(cx, "ShamirState"), (("?",),)), "%s/f%d" % (p.args[0].split(".")[0] if p.op == "sym" else "s", n), {}, {}, ())
        st.emit("fork", p, sid_of(ch), args[1])
        pair_count(it, st, args[0], ZERO)
        c = ("g", "given", p)
        st.store[c] = add(st.store.get(c, ZERO), args[1])
        return ok(ch)
    return f
def sid_of(v):
    while v.op == "agg":
        nxt = None
        for x in v.args[2]:
            if x.op == "sym" and "seed" in x.args[0] or x.op == "agg" and x.args[0].endswith("ShamirRng"):
                nxt = x
        v = nxt if nxt is not None else v.args[2][0]
    return v
def prover_contracts(cx):
    d = {meth(cx, "ShamirState", "rand"): pc_rand(cx), meth(cx, "ShamirState", "get_pair"): pc_pair,
         NET + "degree_reduce": pc_dr(cx, fshare), NET + "degree_reduce_point": pc_dr(cx, pshare), NET + "degree_reduce_many": pc_drv(cx),
         PSH + "open_half_point": pc_open("openhp", 0), PSH + "open_point": pc_open("opent", 0),
         A + "open": pc_open("opent", 0), A + "open_vec": pc_openvec("opent", 0), 
         meth(cx, "ShamirPreprocessing", "new"): c_prep(cx)}
    f = [im["items"]["from"][1] for im in cx.p.impls if im["trait"] and im["trait"].split("::")[-1] == "From" and im["self"][0] == "adt" and im["self"][1].endswith("ShamirState") and "from" in im["items"]]
    for k in f:
        d[k] = c_from(cx)
    d[cx.meth1("ShamirState", "fork", "MpcState").key] = c_fork(cx)
    return d

# ---------------------------------------------------------------- entry points
def wmap_key(cx):
    return "co_groth16::groth16::reduction::R1CSToQAP::witness_map_from_matrices"
def runs(cx, red=None):
    """(driver, function, summary) of the two ways to a proof"""
    g = {"R": red} if red else {}
    ov = {} if red else {wmap_key(cx): c_wmap}
    f = method_of(cx, "plain_prove")
    yield "plain", f, cx.run(f, g=g, as_=("pkey", "matrices", "w"), ov=ov)
    f = method_of(cx, "prove", lambda f: "R" in f.gen and f.body["argc"] == 7)
    yield "shamir", f, cx.run(f, g=g, as_=("net0", "net1", "n", "t", "pkey", "matrices", "w"), ov={**prover_contracts(cx), **ov})
def method_of(cx, name, pred=lambda f: True):
    r = [f for k, f in cx.p.fns.items() if k.startswith("co_groth16::groth16::{impl") and k.split("::")[-1] == name and f.body and pred(f)]
    if not r:
        raise Missing("co_groth16::groth16::CoGroth16::" + name)
    return r[0]

# ---------------------------------------------------------------- interpretations
class Case:
    """one shape of a constraint system with one assignment"""
    def __init__(self, npub=2, nwit=3, nc=3, seed=1, rows=None, qlen=None, hn=4):
        self.npub, self.nwit, self.nc, self.seed, self.hn = npub, nwit, nc, seed, hn
        self.rows = rows or {}
        self.pub = [hnum("pub", seed, i) for i in range(npub)]
        self.wit = [hnum("wit", seed, i) for i in range(nwit)]
        self.h = [hnum("h", seed, i) for i in range(hn)]
    def env(self, cx, drv, J=None, i=None, extra=None):
        vals = {"matrices.num_instance_variables": self.npub, "matrices.num_witness_variables": self.nwit, "matrices.num_constraints": self.nc}
        nv = self.npub + self.nwit
        lens = {"w.public_inputs": self.npub, "w.witness": self.nwit, "pkey.a_query": nv, "pkey.b_g1_query": nv, "pkey.b_g2_query": nv,
                "pkey.l_query": self.nwit, "pkey.h_query": self.hn, "h": self.hn, "pub": self.npub, "wit": self.nwit}
        for m in "abc":
            lens["matrices." + m] = self.nc
            for r in range(self.nc):
                row = self.rows.get(m, {}).get(r, [])
                lens["matrices.%s[%d]" % (m, r)] = len(row)
                for k, (c, v) in enumerate(row):
                    vals["matrices.%s[%d][%d].0" % (m, r, k)] = c
                    vals["matrices.%s[%d][%d].1" % (m, r, k)] = v
        for k, x in enumerate(self.pub):
            vals["w.public_inputs[%d]" % k] = vals["pub[%d]" % k] = x
        for k, x in enumerate(self.wit):
            for p in ("w.witness", "wit"):
                if drv == "plain":
                    vals["%s[%d]" % (p, k)] = x
                else:
                    vals["%s[%d].a" % (p, k)] = J.share(x, ("wit", k), i)
        for k, x in enumerate(self.h):
            vals["h[%d]" % k] = x if drv == "plain" else J.share(x, ("h", k), i, 2 * J.t)
        if J is not None:
            vals.update({"n": J.n, "t": J.t, "id": i})
            for s in ("state0", "state1", "state0/f0", "state"):
                vals.update({s + ".id": i, s + ".num_parties": J.n, s + ".threshold": J.t})
        apps = field_apps(cx)
        if J is not None:
            apps["netid"] = lambda E, a: i
        vals.update(extra or {})
        return Env(seed=self.seed, vals=vals, lens=lens, deflen=3, bools=honest, appfn=apps)
    def joint(self, cx, n, th, extra=None):
        J = Joint.__new__(Joint)
        J.n, J.t, J.seed = n, th, self.seed
        Joint.__init__(J, n, th, lambda i: self.env(cx, "shamir", J, i, extra), self.seed)
        return J
def full_rows(nc, nv, seed, density=(1, 2, 3)):
    out = {}
    for m in "abc":
        out[m] = {}
        for r in range(nc):
            k = density[hnum("d", m, r, seed) % len(density)] if nv else 0
            out[m][r] = [(hnum("c", m, r, j, seed), hnum("v", m, r, j, seed) % nv) for j in range(k)]
    return out
def fld_path(cx, base, adt, path):
    """term of a field of a (foreign) struct by names"""
    x = sym(base)
    key = next((k for k in cx.p.adts if k == adt or k.endswith("::" + adt)), None)
    for name in path.split("."):
        if key is None:
            raise Unclear("struct " + adt)
        fs = cx.p.adts[key]["variants"][0][1]
        i = next((i for i, f in enumerate(fs) if f[0] == name), None)
        if i is None:
            raise Unclear("field %s of %s" % (name, key))
        x = field(x, i, name)
        key = {"vk": next((k for k in cx.p.adts if k == "ark_groth16::data_structures::VerifyingKey"), None)}.get(name)
    return x
def pk(cx, E, path):
    return E.ev(fld_path(cx, "pkey", "ark_groth16::data_structures::ProvingKey", path))

# ---------------------------------------------------------------- Z01
def bad_lengths(cx, drv):
    for npub, nwit in ((2, 3), (1, 1), (3, 5)):
        for dp, dw in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1), (2, 0), (0, 2)):
            if npub + dp < 1 or nwit + dw < 0:
                continue
            c = Case(npub, nwit)
            ex = {"matrices.num_instance_variables": npub + dp, "matrices.num_witness_variables": nwit + dw}
            if drv == "plain":
                yield c.env(cx, "plain", None, None, ex)
            else:
                yield c.joint(cx, 3, 1, ex).E[0]
def Z01(cx):
    for drv, f, r in runs(cx):
        cx.must_fail(f, "the %s prover rejects assignments of the wrong size" % drv, r.ev, lambda: bad_lengths(cx, drv), "accepts a number of public inputs or witness values that does not fit the constraint system")
        def silent():
            for E in bad_lengths(cx, drv):
                out = []
                try:
                    E.trace(r.ev, out=out, kinds=("send", "recv", "comm"))
                except NeedValue:
                    pass
                if out:
                    return "communicates (%s) before rejecting the assignment" % out[0][1]
        cx.decide(f, "nothing is sent before the %s prover has checked the assignment" % drv, silent)
        def good():
            for npub, nwit in ((1, 0), (2, 3), (3, 5), (4, 1)):
                c = Case(npub, nwit)
                yield c.env(cx, "plain") if drv == "plain" else c.joint(cx, 3, 1).E[0]
        cx.must_pass(f, "the %s prover accepts assignments of the right size" % drv, r.ev, good, "fails on a fitting assignment")
    for name, fix in (("CircomReduction", None), ("LibSnarkReduction", None)):
        f, r = wmap(cx, name, PLAIN)
        def huge():
            for nc, npub in (((1 << TWOAD) + 1, 2), (1 << TWOAD, 1), ((1 << TWOAD) - 1, 2), (1 << (TWOAD + 3), 4)):
                yield Case(npub, 2).env(cx, "plain", None, None, {"matrices.num_constraints": nc})
        cx.must_fail(f, "%s rejects systems for which the field has no domain" % name, r.ev, huge, "does not reject a constraint system too large for the field's roots of unity")
        def fits():
            for k, nc, npub in ((3, 3, 2), (3, 6, 2), (2, 2, 2), (2, 1, 2), (1, 1, 1)):
                E = Case(npub, 2, nc, rows=full_rows(nc, npub + 2, 1)).env(cx, "plain")
                E.twoad = k
                yield E
        cx.must_pass(f, "%s accepts systems for which the field has a domain" % name, r.ev, fits, "rejects a system of at most as many constraints and public inputs as the field has roots of unity")

def wmap(cx, name, driver, ov=None):
    f = cx.meth1(name, "witness_map_from_matrices", "R1CSToQAP")
    return f, cx.run(f, g={"T": driver}, as_=("state0", "matrices", "pub", "wit"), ov=ov)

# ---------------------------------------------------------------- Z02
def equations(cx, E, c, r, s):
    """(A, B, C) of the Groth16 equations, all group elements as numbers"""
    N = lambda p: E.num(pk(cx, E, p)) % PRIME
    def q(name):
        v = pk(cx, E, name)
        return [E.num(x) % PRIME for x in E.seq(v)]
    z = c.pub + c.wit
    dot = lambda a, b: sum(x * y for x, y in zip(a, b)) % PRIME
    # variable 0 is the constant one, whose query element is added as it stands
    zz = [1] + z[1:]
    a = (N("vk.alpha_g1") + dot(zz, q("a_query")) + r * N("delta_g1")) % PRIME
    b2 = (N("vk.beta_g2") + dot(zz, q("b_g2_query")) + s * N("vk.delta_g2")) % PRIME
    b1 = (N("beta_g1") + dot(zz, q("b_g1_query")) + s * N("delta_g1")) % PRIME
    cc = (dot(c.wit, q("l_query")) + dot(c.h, q("h_query")) + s * a + r * b1 - r * s * N("delta_g1")) % PRIME
    return a, b2, cc
def proof_parts(cx, v):
    key = v.args[0] if v.op == "agg" else None
    fs = [x[0] for x in cx.p.adts[key]["variants"][0][1]]
    return [field(v, fs.index(n), n) for n in ("a", "b", "c")]
def draws_in(evs, kind="rand"):
    return [e for e in walk(evs) if e[0] == "comm" and e[1] == kind]
def walk(evs):
    for e in evs:
        yield e
        if e[0] == "alt":
            yield from walk(e[2])
            yield from walk(e[3])
        elif e[0] == "loop":
            yield from walk(e[3])
        elif e[0] == "fail":
            yield from walk(e[4])
def apps_in(x, name):
    out, seen, todo = [], set(), [x]
    while todo:
        y = todo.pop()
        if type(y) in (tuple, list):
            todo.extend(y)
        elif type(y) is T and y not in seen:
            seen.add(y)
            if y.op == name or y.op == "app" and y.args[0] == name:
                out.append(y)
            todo.extend(y.args)
    return sorted(out, key=lambda y: y.uid)
SHAPES = ((1, 0), (1, 1), (2, 3), (3, 5), (5, 2))
def Z02(cx):
    for drv, f, r in runs(cx):
        rule = "the %s proof satisfies the Groth16 equations with fresh r and s" % drv
        v = r.ok()
        if v is None:
            cx.bad(f, rule, "never returns a proof")
            continue
        parts = proof_parts(cx, v)
        def test():
            nm = "draw" if drv == "plain" else "rt"
            ds = apps_in(parts, nm)
            if len(ds) != 2:
                return "the proof depends on %d fresh random values instead of two" % len(ds)
            for npub, nwit in SHAPES:
                for seed in (1, 2):
                    c = Case(npub, nwit, seed=seed, hn=4 if seed == 1 else 3)
                    if drv == "plain":
                        E = c.env(cx, "plain")
                        if E.fails(r.ev):
                            return "fails on a fitting assignment (%s)" % (E.fails(r.ev)[2],)
                        got = [E.num(E.ev(p)) % PRIME for p in parts]
                        rs = [E.num(E.ev(d)) % PRIME for d in ds]
                        ok_ = any(got == list(equations(cx, E, c, *o)) for o in (rs, rs[::-1]))
                        if not ok_:
                            return wrong(cx, E, c, got, rs)
                        continue
                    for n, th in PNT:
                        J = c.joint(cx, n, th)
                        if J.E[0].fails(r.ev):
                            return "fails on a fitting assignment"
                        rs = [J.secret_rt(J.E[0].num(J.E[0].ev(d.args[-1])) % PRIME) for d in ds]
                        per = [J.numbers(p) for p in parts]
                        if J.why:
                            return J.why[0]
                        if any(len(set(x)) != 1 for x in per):
                            return "the parties end with different proofs"
                        got = [x[0] for x in per]
                        E = J.E[0]
                        ok_ = any(got == list(equations(cx, E, c, *o)) for o in (rs, rs[::-1]))
                        if not ok_:
                            return wrong(cx, E, c, got, rs)
        cx.decide(f, rule, test, "A, B, C equal the equations for %d shapes, %s" % (len(SHAPES), "all parties of %s" % (PNT,) if drv == "shamir" else "two assignments each"))
def wrong(cx, E, c, got, rs):
    best = max((list(equations(cx, E, c, *o)) for o in (rs, rs[::-1])), key=lambda w: sum(x == y for x, y in zip(w, got)))
    return "%s of the proof differ(s) from the Groth16 equation (%d public inputs, %d witness values)" % (", ".join(n for n, x, y in zip("ABC", best, got) if x != y), c.npub, c.nwit)

# ---------------------------------------------------------------- Z03
class Inp:
    """named inputs of an operation: kind pub (same for all), sh (share of degree t), hs (bare value of degree 2t); n: number of elements or None"""
    def __init__(self, **kw):
        self.k = kw
    def secrets(self, seed):
        out = {}
        for name, (kind, n) in self.k.items():
            out[name] = hnum("in", name, seed) if n is None else [hnum("in", name, seed, j) for j in range(n)]
        return out
    def env(self, cx, drv, seed, J=None, i=None, extra=None, lens=None):
        vals, ln = {}, dict(lens or {})
        sec = self.secrets(seed)
        for name, (kind, n) in self.k.items():
            for p, x in ([(name, sec[name])] if n is None else [("%s[%d]" % (name, j), y) for j, y in enumerate(sec[name])]):
                if drv == "plain" or kind == "pub":
                    vals[p] = x
                elif kind == "sh":
                    vals[p + ".a"] = y_ = J.share(x, (p,), i)
                    vals[p] = Agg(adt_key(cx, FS), 0, [y_])
                elif kind == "hst":
                    vals[p] = J.share(x, (p,), i)
                else:
                    vals[p] = J.share(x, (p,), i, 2 * J.t)
            if n is not None:
                ln[name] = n
        if J is not None:
            for s in ("state", "net"):
                vals.update({s + ".id": i, s + ".num_parties": J.n, s + ".threshold": J.t})
            vals["id"] = i
        vals.update(extra or {})
        apps = {**field_apps(cx), **getattr(self, "apps", {})}
        if J is not None:
            apps["netid"] = lambda E, a: i
        return Env(seed=seed, vals=vals, lens=ln, deflen=3, bools=honest, appfn=apps)
    def joint(self, cx, n, th, seed, extra=None, lens=None):
        J = Joint.__new__(Joint)
        J.n, J.t, J.seed = n, th, seed
        Joint.__init__(J, n, th, lambda i: self.env(cx, "shamir", seed, J, i, extra, lens), seed)
        return J
def drivers(cx, name, trait=DRV, types=("PlainGroth16Driver", "ShamirGroth16Driver")):
    for drv, ty in zip(("plain", "shamir"), types):
        yield drv, cx.meth1(ty, name, trait)
def same_op(cx, name, as_, cases, want, got, out, trait=DRV, types=("PlainGroth16Driver", "ShamirGroth16Driver"), ov=None, what=None, nts=None, apps=None):
    """both drivers' operation `name` computes want(secrets, case) ; got(run) picks the result; out: sh, hs, pub"""
    for drv, f in drivers(cx, name, trait, types):
        r = cx.run(f, as_=as_, ov={**prover_contracts(cx), **(ov or {})} if drv == "shamir" else ov)
        rule = "%s of the %s driver %s" % (name, drv, what or "is the operation on the shared values")
        x = got(r)
        if x is None:
            cx.bad(f, rule, "never returns")
            continue
        def test():
            n = 0
            for case in cases:
                inp, extra, lens = case
                inp.apps = apps or {}
                for seed in (1, 2):
                    sec = inp.secrets(seed)
                    w = want(sec, extra or {})
                    vec = isinstance(w, list)
                    w = [y % PRIME for y in w] if vec else w % PRIME
                    xx = (lambda E: E.seq(E.ev(x))) if vec else (lambda E: E.ev(x))
                    if drv == "plain":
                        E = inp.env(cx, drv, seed, None, None, extra, lens)
                        b = E.fails(r.ev)
                        if b:
                            return "fails (%s)" % (b[2],)
                        g = nsh(E, xx(E))
                        g = [y % PRIME for y in g] if isinstance(g, list) else g % PRIME
                    else:
                        for N, th in (nts or ((3, 1), (5, 2))):
                            J = inp.joint(cx, N, th, seed, extra, lens)
                            b = J.eval(lambda E: E.fails(r.ev))
                            if any(b):
                                return "fails (%s)" % ([z for z in b if z][0][2],)
                            if out == "pub":
                                ys = J.numbers(xx)
                                if any(y != ys[0] for y in ys):
                                    return "gives different parties different results"
                                g = ys[0]
                            else:
                                g = J.secret(xx, th if out == "sh" else 2 * th)
                                if g is None or isinstance(g, list) and None in g:
                                    return "the result is not a sharing of degree %s" % ("t" if out == "sh" else "2t")
                            if J.why:
                                return J.why[0]
                            if g != w:
                                break
                    if g != w:
                        if isinstance(g, list) and len(g) != len(w):
                            return "gives %d values instead of %d" % (len(g), len(w))
                        return "computes another value than %s requires" % name
                    n += 1
        cx.decide(f, rule, test, "equal to the operation on the secrets (and of the right degree) under all interpretations")
def rows_case(npub, nwit, row):
    ex, ln = {}, {"lhs": len(row)}
    for k, (c, v) in enumerate(row):
        ex["lhs[%d].0" % k], ex["lhs[%d].1" % k] = c, v
    return Inp(pub=("pub", npub), wit=("sh", nwit)), ex, ln
def Z03(cx):
    S, H, Pb = "sh", "hs", "pub"
    cons = [rows_case(npub, nwit, row) for npub, nwit in ((1, 0), (1, 3), (2, 3), (4, 1), (3, 3))
            for row in ([], [(5, 0)], [(7, npub - 1)], [(2, npub + nwit - 1)], [(hnum("q", j), hnum("w", j, npub) % (npub + nwit)) for j in range(4)],
                        [(hnum("q", j), j) for j in range(npub + nwit)])]
    def lin(sec, ex):
        z = sec["pub"] + sec["wit"]
        k, s = 0, 0
        while "lhs[%d].0" % k in ex:
            s += ex["lhs[%d].0" % k] * z[ex["lhs[%d].1" % k]]
            k += 1
        return s
    val = lambda r: r.ret
    okv = lambda r: r.ok()
    same_op(cx, "evaluate_constraint", ("id", "lhs", "pub", "wit"), cons, lin, val, S, what="is the linear combination of instance and witness variables")
    same_op(cx, "evaluate_constraint_half_share", ("id", "lhs", "pub", "wit"), cons, lin, val, H, what="is the linear combination of instance and witness variables")
    for n in (0, 1, 4):
        pass
    ns = (0, 1, 3, 5)
    same_op(cx, "promote_to_trivial_shares", ("id", "xs"), [(Inp(xs=(Pb, n)), None, None) for n in ns], lambda s, e: s["xs"], val, S)
    same_op(cx, "local_mul_vec", ("a", "b", "state"), [(Inp(a=(S, n), b=(S, n)), None, None) for n in ns], lambda s, e: [x * y for x, y in zip(s["a"], s["b"])], val, H)
    same_op(cx, "distribute_powers_and_mul_by_const", ("a", "roots"), [(Inp(a=(S, n), roots=(Pb, n)), None, None) for n in ns], lambda s, e: [x * y for x, y in zip(s["a"], s["roots"])], lambda r: r.after("a"), S)
    same_op(cx, "to_half_share", ("a",), [(Inp(a=(S, None)), None, None)], lambda s, e: s["a"], val, H)
    same_op(cx, "msm_public_points_hs", ("points", "scalars"), [(Inp(points=(Pb, n), scalars=(H, n)), None, None) for n in ns], lambda s, e: sum(x * y for x, y in zip(s["points"], s["scalars"])), val, H)
    same_op(cx, "scalar_mul_public_point_hs", ("a", "b"), [(Inp(a=(Pb, None), b=(H, None)), None, None)], lambda s, e: s["a"] * s["b"], val, H)
    same_op(cx, "add_assign_points_public_hs", ("id", "a", "b"), [(Inp(a=(H, None), b=(Pb, None)), None, None)], lambda s, e: s["a"] + s["b"], lambda r: r.after("a"), H)
    same_op(cx, "open_half_point", ("a", "net", "state"), [(Inp(a=(H, None)), None, None)], lambda s, e: s["a"], okv, Pb)
    same_op(cx, "scalar_mul", ("a", "b", "net", "state"), [(Inp(a=(H, None), b=(S, None)), None, None)], lambda s, e: s["a"] * s["b"], okv, H)
    # rand
    for drv, f in drivers(cx, "rand"):
        r = cx.run(f, as_=("net", "state"), ov=prover_contracts(cx) if drv == "shamir" else None)
        x = r.ok()
        if drv == "plain":
            def test():
                ds = apps_in([x], "draw")
                if len(ds) != 1 or x is not ds[0]:
                    return "is not one fresh random value"
        else:
            def test():
                ks = apps_in([x], "rt")
                if len(ks) != 1:
                    return "does not use exactly one correlated pair"
                J = Inp().joint(cx, 3, 1, 1)
                if J.secret(x, 1) != J.secret_rt(J.E[0].num(J.E[0].ev(ks[0].args[-1])) % PRIME):
                    return "is not a fresh random sharing"
        cx.decide(f, "rand of the %s driver is a fresh random value" % drv, test)

# ---------------------------------------------------------------- Z04
def map_cases():
    out = []
    for nc, npub, nwit in ((1, 1, 1), (3, 1, 2), (2, 2, 0), (3, 2, 3), (5, 3, 4), (6, 2, 2), (1, 4, 1)):
        out.append((nc, npub, nwit))
    return out
def Z04(cx):
    for name in ("CircomReduction", "LibSnarkReduction"):
        for drv, ty in (("plain", PLAIN), ("shamir", SHAM)):
            f, r = wmap(cx, name, ty)
            rule = "%s returns the quotient of the constraint system's polynomials (%s)" % (name, drv)
            x = r.ok()
            if x is None:
                cx.bad(f, rule, "never returns")
                continue
            def test():
                for nc, npub, nwit in map_cases():
                    for nth in (1, 3, 16):
                        if nth != 3 and nc != 5:
                            continue
                        rows = full_rows(nc, npub + nwit, nc)
                        c = Case(npub, nwit, nc, seed=nc, rows=rows)
                        z = c.pub + c.wit
                        want = want_map(name, nc, npub, rows, z)
                        def fix(E):
                            E.appfn["nthreads"] = lambda E, a: nth
                            return E
                        if drv == "plain":
                            E = fix(c.env(cx, "plain"))
                            b = E.fails(r.ev)
                            if b:
                                return "fails on a fitting system (%s)" % (b[2],)
                            got = [y % PRIME for y in nsh(E, E.ev(x))]
                        else:
                            J = c.joint(cx, 3, 1)
                            for E in J.E:
                                fix(E)
                                b = E.fails(r.ev)
                                if b:
                                    return "fails on a fitting system (%s)" % (b[2],)
                            got = J.secret(x, 2)
                            if got is None or None in got:
                                return "the result is not a sharing of degree 2t"
                        if got != want:
                            return "returns other values than the quotient (%d constraints, %d public inputs, %d witness values)" % (nc, npub, nwit)
            cx.decide(f, rule, test, "equal to the definition for %d shapes of constraint systems" % len(map_cases()))
    roots_ok(cx)
def want_map(name, nc, npub, rows, z):
    n = npow2(nc + npub)
    ev_ = {}
    for m in "abc":
        ev_[m] = [sum(k * z[v] for k, v in rows[m][i]) % PRIME for i in range(nc)] + [0] * (n - nc)
    for i in range(npub):
        ev_["a"][nc + i] = z[i]
    if name == "CircomReduction":
        lg = n.bit_length() - 1
        g, shift = snark_root(lg), snark_root(lg + 1)
        cst = [x * y % PRIME for x, y in zip(ev_["a"], ev_["b"])]
    else:
        g, shift = ark_root(n), GEN
        cst = ev_["c"]
    def coset(v):
        c = idft(v, g)
        return dft([x * pow(shift, i, PRIME) % PRIME for i, x in enumerate(c)], g)
    a, b, c = coset(ev_["a"]), coset(ev_["b"]), coset(cst)
    h = [(x * y - w) % PRIME for x, y, w in zip(a, b, c)]
    if name == "CircomReduction":
        return h
    zi = inv_(pow(GEN, n, PRIME) - 1)
    h = idft([x * zi % PRIME for x in h], g)
    return [x * inv_(pow(GEN, i, PRIME)) % PRIME for i, x in enumerate(h)]
def roots_ok(cx):
    """the generator and the coset shift are snarkjs's for every size the field allows"""
    f = cx.p.fns.get(G16 + "groth16_roots_of_unity")
    if f is None:
        raise Unclear("groth16_roots_of_unity")
    r = cx.run(f, as_=("pow",))
    def test():
        for k in range(TWOAD + 1):
            E = Env(vals={"pow": k}, bools=honest, appfn=field_apps(cx))
            if E.fails(r.ev):
                return "fails for a domain of size 2^%d" % k
            v = E.ev(r.ret)
            got = [E.num(x) % PRIME for x in v.f]
            want = [snark_root(k), snark_root(k + 1) if k < TWOAD else QNR * QNR % PRIME]
            if got != want:
                return "gives another %s than snarkjs for a domain of size 2^%d" % ("generator" if got[0] != want[0] else "coset shift", k)
    cx.decide(f, "domain generator and coset shift are those of snarkjs for every size", test, "equal for all 2^0 … 2^%d" % TWOAD)

# ---------------------------------------------------------------- K04, Z06, Z07 for Groth16
def comm_of(evs, E, kinds=("comm",)):
    out = []
    E.trace(evs, out=out, kinds=kinds)
    return out
def only_proof_opened(cx):
    """opened during Groth16 proving: A, B and C, nothing else"""
    for drv, f, r in runs(cx):
        if drv == "plain":
            continue
        rule = "the Groth16 prover opens A, B and C and nothing else"
        v = r.ok()
        if v is None:
            cx.bad(f, rule, "never returns a proof")
            continue
        parts = proof_parts(cx, v)
        def test():
            for npub, nwit in SHAPES[:4]:
                c = Case(npub, nwit)
                for n, th in PNT[:2]:
                    J = c.joint(cx, n, th)
                    ev = J.eval(lambda E: comm_of(r.ev, E))
                    got = [x for x in ev[0]]
                    per = [J.numbers(p)[0] for p in parts]
                    opened = []
                    for k, x in enumerate(got):
                        if x[0] != "comm":
                            return "sends something outside the openings and multiplications of the protocol"
                        if x[1] in ("openhp", "opent", "open2t", "opentv"):
                            ys = [nsh(E, e[k][4]) for E, e in zip(J.E, ev)]
                            opened.append(interp_at(list(range(1, n + 1)), ys) if not isinstance(ys[0], list) else None)
                    if sorted(map(str, opened)) != sorted(map(str, per)):
                        return "%d values are opened; the proof has three elements" % len(opened) if len(opened) != 3 else "a value that is not part of the proof is opened"
                    raw = []
                    J.E[0].trace(r.ev, out=raw, kinds=("send", "recv"))
                    if raw:
                        return "sends something outside the openings and multiplications of the protocol"
        cx.decide(f, rule, test, "the opened values are those of the proof for %d shapes" % 4)

def budget(cx, f, r, rule, envs_):
    """every state gives out at most the pairs it was prepared or forked with"""
    def test():
        n = 0
        for J in envs_():
            acts = J.eval(lambda E: (E.fails(r.ev), comm_of(r.ev, E, ("comm", "fork", "prep"))))[0]
            if acts[0]:
                continue
            n += 1
            have, acts, E = {}, acts[1], J.E[0]
            pr = [a for a in acts if a[0] == "prep"]
            if len(pr) != 1:
                return "%d preprocessings are made" % len(pr)
            root = "state0"
            have[root] = E.sint(pr[0][3])
            for a in acts:
                if a[0] == "fork":
                    p, ch, k = name_of(a[1]), name_of(a[2]), E.sint(a[3])
                    have[p] = have.get(p, 0) - k
                    have[ch] = have.get(ch, 0) + k
                    if have[p] < 0:
                        return "a fork takes %d pairs more than %s has left" % (-have[p], p)
                elif a[0] == "comm":
                    s = name_of(a[3])
                    need = {"rand": 1, "dr": 1}.get(a[1], 0)
                    if a[1] == "drv":
                        need = len(E.seq(a[4]))
                    if need:
                        have[s] = have.get(s, 0) - need
                        if have[s] < 0:
                            return "%s uses %d correlated pair(s) more than were prepared" % ("the state" if s == root else "the forked state", -have[s])
        if not n:
            return "fails on every input the property admits"
    cx.decide(f, rule, test, "pairs used <= pairs prepared, per state")
def name_of(o):
    p = o.path() if isinstance(o, O) else str(o)
    return p.split(".")[0]
def groth_budget(cx):
    for drv, f, r in runs(cx):
        if drv == "shamir":
            def envs_():
                for npub, nwit in SHAPES:
                    yield Case(npub, nwit).joint(cx, 3, 1)
            budget(cx, f, r, "the Groth16 prover prepares the correlated pairs it uses", envs_)

def legs(cx, f, r, rule):
    """the two parts of every concurrent section use different networks and different protocol states"""
    js = r.it.stats.get("joins", [])
    n = 0
    for loc, parts in js:
        use = [uses(p) for p in parts]
        for i in range(len(use)):
            for k in range(i):
                n += 1
                for what, idx_ in (("network", 0), ("protocol state", 1)):
                    both = use[i][idx_] & use[k][idx_]
                    if both:
                        cx.bad(f, rule, "two parts that run concurrently use the same %s (%s)" % (what, ", ".join(sorted(both))))
                        return
    if n:
        cx.good(f, rule, "%d pairs of concurrent parts" % n)
    else:
        cx.good(f, rule, "nothing runs concurrently")
def uses(evs):
    nets, sts = set(), set()
    for e in walk(evs):
        if e[0] == "comm":
            nets.add(t.show(e[2], 4))
            sts.add(t.show(e[3], 4).split(".")[0])
        elif e[0] in ("send", "recv"):
            nets.add(t.show(e[1], 4))
    return nets, sts
def groth_legs(cx):
    for drv, f, r in runs(cx):
        if drv == "shamir":
            legs(cx, f, r, "concurrent parts of the Groth16 prover use their own network and state")
def K04g(cx):
    only_proof_opened(cx)
def Z06g(cx):
    groth_budget(cx)
def Z07g(cx):
    groth_legs(cx)

# ---------------------------------------------------------------- Z05 (Groth16)
def Z05g(cx):
    f = cx.meth1("CoGroth16", "verify", None, "co_groth16")
    r = cx.run(f, as_=("vk", "proof", "pub"))
    rule = "Groth16 verification accepts exactly on a successful check"
    def run_(res, n=2, vals=None, bools=lambda v: None):
        log = []
        def check(E, a):
            log.append([E.dig(x) for x in a])
            return {"err": Agg(RES, 1, [0]), "no": Agg(RES, 0, [False]), "yes": Agg(RES, 0, [True])}[res]
        E = Env(bools=bools, vals=vals, deflen=n, appfn={"verifier::verify_proof": check, "Groth16::verify_proof": check, "verify_proof": check})
        b = E.fails(r.ev)
        v = E.ev(r.ret) if not b and r.ret is not None else None
        return E, b, v, log
    def test():
        for res, n in (("yes", 2), ("no", 2), ("err", 2), ("no", 0), ("err", 0), ("yes", 0), ("no", 1), ("yes", 1), ("yes", 5), ("no", 5)):
            E, b, v, log = run_(res, n)
            if not log:
                raise Undecided("the pairing check is not arkworks' verify_proof")
            acc = not b and not (isinstance(v, Agg) and v.key == RES and v.var == 1)
            if res == "yes" and not acc:
                return "does not accept a proof whose check succeeds"
            if res == "no" and acc:
                return "accepts a proof whose pairing check fails"
            if res == "err" and acc:
                return "accepts although the check returned an error"
            if b and b[0] != "err":
                return "panics instead of returning an error"
            vk, proof, pub = [E.dig(E.sym(x)) for x in ("vk", "proof", "pub")]
            pvk = E.dig(E.opaque("verifier::prepare_verifying_key", [E.sym("vk")]))
            for a in log:
                if a[-1] != pub:
                    return "checks other public inputs than those given"
                if a[-2] != proof:
                    return "checks another proof than the one given"
                if a[0] not in (pvk, vk) and len(a) == 3:
                    raise Undecided("the prepared key is not recognised")
        els = ["proof." + x for x in "abc"]
        for z in [[x] for x in els] + [els] + [["pub[%d]" % i for i in range(3)]]:
            for b0 in (None, True, False):
                for res in ("no", "err"):
                    E, b, v, log = run_(res, 3, {x: 0 for x in z}, lambda v: b0)
                    if not b and not (isinstance(v, Agg) and v.key == RES and v.var == 1):
                        return "accepts a proof whose check %s when %s" % ("fails" if res == "no" else "returns an error", ", ".join(z) + " = 0")
        # a failed check is an invalid proof, an error of the check is passed on
        kinds = {}
        for res in ("no", "err"):
            E, b, v, log = run_(res)
            d = b[1] if b else v.f[0]
            kinds[res] = d.args[1] if type(d) is T and d.op == "agg" and d.args[0].endswith("VerificationError") else None
        a = next((x for k, x in cx.p.adts.items() if k.endswith("co_circom_types::VerificationError") or k.split("::")[-1] == "VerificationError"), None)
        if a and kinds["no"] is not None:
            if a["variants"][kinds["no"]][0] != "InvalidProof":
                return "a failed check is not reported as an invalid proof"
    cx.decide(f, rule, test, "accepts on Ok(true) only; the given proof, key and public inputs are what is checked")
