"""Collaborative Plonk: the rounds are summarised one by one and evaluated in the order the prover calls them, on small random circuits
with random witnesses; the proof elements, openings and randomness that come out are compared with the Plonk protocol (snarkjs variant)."""
from .common import *
from .algebra import *
from .groth import (emitc, prover_contracts, pc_openvec, walk, apps_in, comm_of, name_of, legs, uses, Inp, same_op, drivers)
from .. import terms as t

PDRV = "CircomPlonkProver"
PTYPES = ("PlainPlonkDriver", "ShamirPlonkDriver")

# ---------------------------------------------------------------- the rounds
def pl_contracts(cx):
    d = prover_contracts(cx)
    d[PSH + "open_point_many"] = pc_openvec("opent", 0)
    d[A + "mul_open_vec"] = c_mul_open(cx)
    return d
def c_mul_open(cx):
    def f(it, fr, st, a, args, loc):
        x, y = V0(it, st, args[0]), V0(it, st, args[1])
        n = t.mn(length(x), length(y)) if hasattr(t, "mn") else length(x)
        v = gen(length(x), lambda i: mul(field(idx(x, i), 0, "a"), field(idx(y, i), 0, "a")))
        nets = [sid(it, st, z) for z in args[2:]]
        emitc(st, "open2t", nets[0], nets[1], v)
        z = mk("app", "open2tv", v)
        return ok(gen(length(v), lambda i: idx(z, i)))
    return f

def ok_type(ty):
    return ty[2][0] if ty[0] == "adt" and ty[1].endswith("::Result") and ty[2] else None
def round_struct(cx, ty):
    """a local record that carries a protocol state by mutable reference"""
    if ty is None or ty[0] != "adt":
        return False
    a = cx.p.adts.get(ty[1])
    if not a or not a.get("local") or a["kind"] != "struct" or not ty[1].startswith("co_plonk::"):
        return False
    return any(f[1][0] == "ref" and f[1][2] for f in a["variants"][0][1])
def stage_fns(cx):
    out = {}
    for k, f in cx.p.fns.items():
        if k.startswith("co_plonk::") and f.body and f.kind != "closure":
            tys = f.body["tys"]
            o = ok_type(tys[0])
            if o is None:
                continue
            ins = [tys[i + 1] for i in range(f.body["argc"])]
            if round_struct(cx, o) or any(round_struct(cx, x) for x in ins) and o[0] == "adt" and o[1].endswith("PlonkProof"):
                out[k] = f
    # functions that merely call stages are looked into
    for k, f in list(out.items()):
        text = repr([b[1] for b in f.body["bbs"]])
        if any(repr(k2) in text for k2 in out if k2 != k):
            del out[k]
    return out
def entry(cx, drv):
    for k, f in sorted(cx.p.fns.items()):
        if k.startswith("co_plonk::{impl") and f.body and k.split("::")[-1] == ("plain_prove" if drv == "plain" else "prove") and (drv == "plain" or f.body["argc"] == 5):
            return f
    raise Missing("co_plonk::CoPlonk::" + ("plain_prove" if drv == "plain" else "prove"))
class Chain:
    """summaries of the stages of one prover, in the order of its calls"""
    def __init__(self, cx, drv):
        self.cx, self.drv = cx, drv
        self.fn = entry(cx, drv)
        self.stages = stage_fns(cx)
        self.calls = []
        def c_stage(key):
            def f(it, fr, st, a, args, loc):
                n = len(self.calls)
                self.calls.append((key, [it.deref_all(st, x) if x.op == "mref" else it.deep_deref(st, x) for x in args]))
                st.emit("stage", num(n))
                return ok(sym("stage%d" % n))
            return f
        self.ov = pl_contracts(cx) if drv == "shamir" else {}
        ov = dict(self.ov)
        for k in self.stages:
            ov[k] = c_stage(k)
        cx.ghost_sfx = ""
        self.top = cx.run(self.fn, ov=ov, as_=("zkey", "w") if drv == "plain" else ("nets", "n", "t", "zkey", "w"))
        if not self.calls:
            raise Unclear("the prover's rounds")
        if [e for e in self.top.ev if e[0] in ("loop", "alt") and any(x[0] == "stage" for x in walk([e]))]:
            raise Unclear("the prover's rounds are called conditionally")
        ty = ("adt", adt_key(cx, PTYPES[drv == "shamir"]), ())
        self.runs = []
        for n, (key, args) in enumerate(self.calls):
            f = self.stages[key]
            cx.ghost_sfx = " s%d" % n
            names = ["s%da%d" % (n, i) for i in range(f.body["argc"])]
            g = {x: ty for x in f.gen if x == "T"}
            if not g:
                raise Unclear("the driver parameter of " + key)
            r = cx.run(f, g=g, ov=self.ov, as_=names)
            self.runs.append((f, r, names, args, g))
        cx.ghost_sfx = ""
def bind(cx, E, ty, name, v, g):
    """makes v the value of the symbolic input `name` of type ty, field by field"""
    E.vals[name] = v
    ty = cx.p.tsubst(ty, g)
    while ty[0] == "ref":
        ty = ty[1]
    if ty[0] == "adt":
        a = cx.p.adts.get(ty[1])
        if a and a.get("local") and a["kind"] == "struct":
            for i, f in enumerate(a["variants"][0][1]):
                bind(cx, E, cx.p.tsubst(f[1], ty[2]), name + "." + f[0], E.fld(v, i, f[0]), g)
    elif ty[0] == "tup":
        for i, x in enumerate(ty[1]):
            bind(cx, E, x, name + "." + str(i), E.fld(v, i, str(i)), g)

class Failed(Exception):
    def __init__(self, how):
        self.how = how
def run_chain(cx, ch, envs, ev, collect=None):
    """evaluates the stages for all parties; ev(f) -> values of f(E) for every party.  Returns per party the list of stage results."""
    res = []
    for n, (f, r, names, args, g) in enumerate(ch.runs):
        gg = tuple(("'",) if x.startswith("'") else ("const", x) if x.startswith("#") else g.get(x, ("param", i, x)) for i, x in enumerate(f.gen))
        vs = ev(lambda E: [E.ev(a) for a in args])
        for E, v in zip(envs, vs):
            for i, x in enumerate(v):
                bind(cx, E, f.body["tys"][i + 1], names[i], x, gg)
        bs = ev(lambda E: E.fails(r.ev))
        if any(bs):
            raise Failed([b for b in bs if b][0] + (f.key,))
        out = ev(lambda E: E.ev(r.ret))
        out = [okval(E, o) for E, o in zip(envs, out)]
        if any(o is None for o in out):
            raise Failed(("err", "", None, f.key))
        if collect:
            collect(f, r, envs, ev)
        for E, o in zip(envs, out):
            E.vals["stage%d" % n] = o
        res.append(out)
    return res

# ---------------------------------------------------------------- circuits
def fft_apps(cx):
    rk = next((k for k in cx.p.adts if k.split("::")[-1] == "Radix2EvaluationDomain"), None)
    names = [f[0] for f in cx.p.adts[rk]["variants"][0][1]] if rk else []
    def new(E, a):
        s = npow2(E.sint(a[0]))
        lg = s.bit_length() - 1
        if lg > adicity(E):
            return NONE_
        g = pow(_ark(E), 1 << (adicity(E) - lg), PRIME)
        d = {"size": s, "log_size_of_group": lg, "size_as_field_element": s, "size_inv": inv_(s), "group_gen": g, "group_gen_inv": inv_(g),
             "offset": 1, "offset_inv": 1, "offset_pow_size": 1}
        if not names or set(names) - set(d):
            raise Undecided("the record of an evaluation domain")
        return some_(Agg(rk, 0, [d[n] for n in names]))
    def fld(E, d, n):
        while isinstance(d, Agg) and d.key != rk and len(d.f) == 1:
            d = d.f[0]
        if not isinstance(d, Agg) or d.key != rk:
            raise Undecided("domain %r" % (d,))
        return E.num(d.f[names.index(n)]) % PRIME
    def tr(inverse, place=False):
        def f(E, a):
            n = fld(E, a[0], "size")
            v = Vals(E, a[1])
            c = (v.n + [0] * n)[:n]
            if fld(E, a[0], "offset") != 1:
                raise Undecided("transform on a coset")
            r = dft(c, fld(E, a[0], "group_gen_inv" if inverse else "group_gen"))
            if inverse:
                r = [x * fld(E, a[0], "size_inv") % PRIME for x in r]
            return v.back(r)
        return f
    def evalp(E, a):
        p = a[0]
        while isinstance(p, O) and p.fpath() + ".coeffs" in E.vals:
            p = E.vals[p.fpath() + ".coeffs"]
        return ev_poly([E.num(x) % PRIME for x in E.seq(p)], E.num(a[1]) % PRIME)
    acc = {"EvaluationDomain::" + m: (lambda f: lambda E, a: fld(E, a[0], f))(f) for m, f in
           (("size_inv", "size_inv"), ("group_gen", "group_gen"), ("group_gen_inv", "group_gen_inv"), ("size_as_field_element", "size_as_field_element"), ("size", "size"),
            ("coset_offset", "offset"), ("coset_offset_inv", "offset_inv"), ("coset_offset_pow_size", "offset_pow_size"), ("log_size_of_group", "log_size_of_group"))}
    acc["EvaluationDomain::element"] = lambda E, a: fld(E, a[0], "offset") * pow(fld(E, a[0], "group_gen"), E.sint(a[1]), PRIME) % PRIME
    def vanish(E, a):
        return (pow(E.num(a[1]) % PRIME, fld(E, a[0], "size"), PRIME) - fld(E, a[0], "offset_pow_size")) % PRIME
    acc["EvaluationDomain::evaluate_vanishing_polynomial"] = vanish
    return {**acc, "EvaluationDomain::new": new, "EvaluationDomain::fft": tr(False), "EvaluationDomain::ifft": tr(True),
            "EvaluationDomain::fft_in_place!1": tr(False), "EvaluationDomain::ifft_in_place!1": tr(True),
            "Polynomial::evaluate": evalp, "CircomPolynomial::evaluate": evalp, "DensePolynomial::evaluate": evalp}
def _ark(E):
    return pow(pow(GEN, TRACE, PRIME), 1 << (TWOAD - adicity(E)), PRIME)
def ser_bytes(E, x):
    k = E.num(x) % PRIME
    return [hnum("byte", k, i) for i in range(4)]
COORD = 2
def transcript_apps(cx):
    """bytes of scalars and coordinates, the hash and the reduction of its output"""
    def ser(E, a):
        return ser_bytes(E, a[0])
    def xy(E, a):
        p = E.num(a[0]) % PRIME
        if p == 0:
            return NONE_
        return some_(Agg("tup", 0, [hnum("x", p), hnum("y", p)]))
    def upd(E, a):
        return list(E.seq(a[0])) + list(E.seq(a[1]))
    def fin(E, a):
        if not isinstance(a[0], list):
            raise Undecided("digest of %r" % (a[0],))
        return Agg("digest", 0, [a[0]])
    def chal(order):
        def f(E, a):
            d = a[0]
            if not isinstance(d, Agg) or d.key != "digest":
                raise Undecided("challenge out of %r" % (d,))
            b = [E.num(x) % PRIME for x in d.f[0]]
            E.__dict__.setdefault("challog", []).append((order, tuple(b)))
            x = challenge(E, b, order)
            if x not in E.__dict__.setdefault("chals", []):
                E.chals.append(x)
            return x
        return f
    return {"ser": ser, "AffineRepr::xy": xy, "Digest::update!0": upd, "Digest::finalize": fin, "default:CoreWrapper<Keccak256Core>": lambda E, a: [],
            "PrimeField::from_be_bytes_mod_order": chal("be"), "PrimeField::from_le_bytes_mod_order": chal("le"),
            "const:PrimeField::MODULUS_BIT_SIZE": lambda E, a: 8 * NB - 3, "PrimeGroup::generator": lambda E, a: 1,
            "CircomArkworksPairingBridge::get_circom_name": lambda E, a: E.sym("curve")}
NB = 4      # bytes of a field element in the interpretation
def challenge(E, bytes_, order="be"):
    fix = getattr(E, "fixchal", None)
    if fix is not None:
        return hnum("fixchal", fix, len(bytes_), hkinds(E, bytes_))
    return hnum("chal", order, tuple(bytes_))
def hkinds(E, b):
    # the number of a challenge when contents must not matter: its position in the order of first appearance
    m = E.__dict__.setdefault("chalpos", {})
    return m.setdefault(tuple(b), len(m))
class Log(list):
    pass
def tr_bytes(entries):
    """what a transcript must have been fed: scalars and points, big-endian"""
    out = []
    for kind, v in entries:
        if kind == "s":
            out += [hnum("byte", v % PRIME, i) for i in range(NB)][::-1]
        elif v % PRIME == 0:
            out += [0] * (2 * NB)
        else:
            for c in ("x", "y"):
                k = hnum(c, v % PRIME)
                out += [hnum("byte", k, i) for i in range(NB)][::-1]
    return out
def tr_chal(entries):
    return hnum("chal", "be", tuple(tr_bytes(entries)))

def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] = (r[i + j] + x * y) % PRIME
    return r
class Circ:
    """a random Plonk key of domain size n with a satisfying assignment"""
    def __init__(self, n=8, npub=1, nadd=1, npriv=3, seed=1, nc=None, tau=None, zero=""):
        self.n, self.npub, self.nadd, self.npriv, self.seed = n, npub, nadd, npriv, seed
        self.lg = n.bit_length() - 1
        self.nvars = 1 + npub + npriv + nadd
        self.nc = n if nc is None else nc
        H = lambda *x: hnum("circ", seed, *x)
        self.H = H
        self.pub = [H("pub", i) for i in range(npub)]
        self.priv = [H("priv", i) for i in range(npriv)]
        self.k1, self.k2 = H("k1"), H("k2")
        self.tau = H("tau") if tau is None else tau
        vals = [0] + self.pub + self.priv
        self.adds = []
        for i in range(nadd):
            a, b = H("as1", i) % len(vals), H("as2", i) % len(vals)
            fa, fb = H("af1", i), H("af2", i)
            self.adds.append((a, b, fa, fb))
            vals.append((vals[a] * fa + vals[b] * fb) % PRIME)
        self.vals = vals
        self.w = snark_root(self.lg)
        self.w4 = snark_root(self.lg + 2)
        m = {"a": [], "b": [], "c": []}
        q = {x: [0] * n for x in ("m", "l", "r", "o", "c")}
        for i in range(self.nc):
            if i < npub:
                m["a"].append(i + 1)
                m["b"].append(0)
                m["c"].append(0)
                q["l"][i] = 1
                continue
            for x in "abc":
                m[x].append(H("map", x, i) % self.nvars)
            va, vb, vc = [vals[m[x][i]] for x in "abc"]
            for x in "mlro":
                q[x][i] = 0 if x in zero else H("q", x, i)
            q["c"][i] = -(q["m"][i] * va * vb + q["l"][i] * va + q["r"][i] * vb + q["o"][i] * vc) % PRIME
        self.map, self.q = m, q
        # permutation of the 3n cells along equal variables
        cells = {}
        for j, x in enumerate("abc"):
            for i in range(n):
                v = m[x][i] if i < self.nc else 0
                cells.setdefault(v, []).append((j, i))
        ks = (1, self.k1, self.k2)
        s = [[0] * n for _ in range(3)]
        for v, l in cells.items():
            for k, (j, i) in enumerate(l):
                j2, i2 = l[(k + 1) % len(l)]
                s[j][i] = ks[j2] * pow(self.w, i2, PRIME) % PRIME
        self.polys = {"q%s_poly" % x: self.mk(q[x]) for x in "mlroc"}
        self.polys.update({"s%d_poly" % (j + 1): self.mk(s[j]) for j in range(3)})
        self.lag = [self.mk([int(i == j) for i in range(n)]) for j in range(npub)]
    def mk(self, ev):
        c = idft(ev, self.w)
        return c, dft(c + [0] * (3 * self.n), self.w4)
    def at(self, poly, x):
        return ev_poly(self.polys[poly][0], x)
    def vk(self):
        d = {("qm", "ql", "qr", "qo", "qc")["mlroc".index(k[1])] if k[0] == "q" else k[:2]: self.at(k, self.tau) for k in self.polys}
        d.update(k1=self.k1, k2=self.k2)
        return d
    def fill(self, vals, lens):
        z = {"zkey.domain_size": self.n, "zkey.n_public": self.npub, "zkey.n_vars": self.nvars, "zkey.n_additions": self.nadd,
             "zkey.n_constraints": self.nc, "zkey.pow": self.lg, "zkey.power": self.lg,
             "zkey.p_tau": [pow(self.tau, i, PRIME) for i in range(self.n + 6)]}
        for x in "abc":
            z["zkey.map_" + x] = list(self.map[x])
        for k, (c, e) in self.polys.items():
            z["zkey.%s.coeffs" % k], z["zkey.%s.evaluations" % k] = list(c), list(e)
        lens["zkey.lagrange"] = len(self.lag)
        for j, (c, e) in enumerate(self.lag):
            z["zkey.lagrange[%d].coeffs" % j], z["zkey.lagrange[%d].evaluations" % j] = list(c), list(e)
        lens["zkey.additions"] = len(self.adds)
        for i, (a, b, fa, fb) in enumerate(self.adds):
            z.update({"zkey.additions[%d].signal_id1" % i: a, "zkey.additions[%d].signal_id2" % i: b,
                      "zkey.additions[%d].factor1" % i: fa, "zkey.additions[%d].factor2" % i: fb})
        for k, v in self.vk().items():
            z["zkey.verifying_key." + k] = v
        vals.update(z)
    def env(self, cx, drv, J=None, i=None, extra=None):
        vals, lens = {}, {}
        self.fill(vals, lens)
        vals["w.public_inputs"] = [1] + self.pub
        fk = adt_key(cx, FS) if drv == "shamir" else None
        vals["w.witness"] = list(self.priv) if drv == "plain" else [Agg(fk, 0, [J.share(x, ("priv", k), i)]) for k, x in enumerate(self.priv)]
        apps = {**field_apps(cx), **fft_apps(cx), **transcript_apps(cx)}
        if J is not None:
            apps["netid"] = lambda E, a: i
            vals.update({"n": J.n, "t": J.t, "id": i, "state0.id": i, "state0.num_parties": J.n, "state0.threshold": J.t})
        vals.update(extra or {})
        for k in [k for k, v in vals.items() if v is None]:
            del vals[k]
        return Env(seed=self.seed, vals=vals, lens=lens, deflen=3, bools=honest, appfn=apps)
    def joint(self, cx, n, th, extra=None):
        J = Joint.__new__(Joint)
        J.n, J.t, J.seed = n, th, self.seed
        Joint.__init__(J, n, th, lambda i: self.env(cx, "shamir", J, i, extra), self.seed)
        return J
class PRun:
    """one evaluation of a prover on a circuit; pert: {key of a draw: what is added to (or, for a function, made of) it}"""
    def __init__(self, cx, ch, c, nt=(3, 1), prep=None, extra=None, pert=None, collect=None):
        self.ch, self.c = ch, c
        self.draws = []
        def value(k, x):
            if k not in self.draws:
                self.draws.append(k)
            d = (pert or {}).get(k, 0)
            return (d(x) if callable(d) else x + d) % PRIME
        if ch.drv == "plain":
            E = c.env(cx, "plain", extra=extra)
            E.appfn["draw"] = lambda E, a: value(tuple(E.dig(x) for x in a), hnum("draw", c.seed, *[E.dig(x) for x in a]))
            self.E = [E]
            self.J = None
            ev = lambda f: [f(E)]
        else:
            self.J = c.joint(cx, *nt, extra=extra)
            rt = self.J.secret_rt
            self.J.secret_rt = lambda k: value(k, rt(k))
            self.E = self.J.E
            ev = self.J.eval
        if prep:
            for E in self.E:
                prep(E)
        self.ev = ev
        self.res = run_chain(cx, ch, self.E, ev, collect)
        b = ev(lambda E: E.fails(ch.top.ev))
        if any(b):
            raise Failed([x for x in b if x][0] + (ch.fn.key,))
        if collect:
            collect(ch.fn, ch.top, self.E, ev)
        out = ev(lambda E: okval(E, E.ev(ch.top.ret)))
        self.proofs = [proof_nums(cx, E, o) for E, o in zip(self.E, out)]
        self.why = self.J.why if self.J else []
PE = ("a", "b", "c", "z", "t1", "t2", "t3", "eval_a", "eval_b", "eval_c", "eval_s1", "eval_s2", "eval_zw", "wxi", "wxiw")
def proof_nums(cx, E, o):
    if not isinstance(o, Agg):
        raise Undecided("proof %r" % (o,))
    fs = [f[0] for f in cx.p.adts[o.key]["variants"][0][1]]
    return {n: E.num(o.f[fs.index(n)]) % PRIME for n in PE}

# ---------------------------------------------------------------- the verifier of the protocol, in plain numbers
def challenges(vk, pr, pub):
    P_ = lambda n: ("p", pr[n])
    S_ = lambda n: ("s", pr[n])
    c = {}
    c["beta"] = tr_chal([("p", vk[k]) for k in ("qm", "ql", "qr", "qo", "qc", "s1", "s2", "s3")] + [("s", x) for x in pub] + [P_("a"), P_("b"), P_("c")])
    c["gamma"] = tr_chal([("s", c["beta"])])
    c["alpha"] = tr_chal([("s", c["beta"]), ("s", c["gamma"]), P_("z")])
    c["xi"] = tr_chal([("s", c["alpha"]), P_("t1"), P_("t2"), P_("t3")])
    c["v"] = tr_chal([("s", c["xi"])] + [S_(n) for n in ("eval_a", "eval_b", "eval_c", "eval_s1", "eval_s2", "eval_zw")])
    c["u"] = tr_chal([P_("wxi"), P_("wxiw")])
    return c
def lagrange1(n, w, npub, xi):
    zh = (pow(xi, n, PRIME) - 1) % PRIME
    return [pow(w, i, PRIME) * zh * inv_(n * (xi - pow(w, i, PRIME))) % PRIME for i in range(max(1, npub))], zh
def sides(vk, pr, pub, n, ch, w=None):
    """(a1, b1): the proof is valid iff a1 * tau = b1"""
    w = snark_root(n.bit_length() - 1) if w is None else w
    be, ga, al, xi, v, u = [ch[k] for k in ("beta", "gamma", "alpha", "xi", "v", "u")]
    L, zh = lagrange1(n, w, len(pub), xi)
    pi = -sum(x * l for x, l in zip(pub, L)) % PRIME
    ea, eb, ec, s1, s2, zw = [pr[k] for k in ("eval_a", "eval_b", "eval_c", "eval_s1", "eval_s2", "eval_zw")]
    r0 = pi - L[0] * al * al - al * (ea + be * s1 + ga) * (eb + be * s2 + ga) * (ec + ga) * zw
    d = ea * eb * vk["qm"] + ea * vk["ql"] + eb * vk["qr"] + ec * vk["qo"] + vk["qc"]
    d += ((ea + be * xi + ga) * (eb + be * xi * vk["k1"] + ga) * (ec + be * xi * vk["k2"] + ga) * al + L[0] * al * al + u) * pr["z"]
    d -= (ea + be * s1 + ga) * (eb + be * s2 + ga) * al * be * zw * vk["s3"]
    xn = pow(xi, n, PRIME)
    d -= zh * (pr["t1"] + xn * pr["t2"] + xn * xn * pr["t3"])
    f = d + v * pr["a"] + v ** 2 * pr["b"] + v ** 3 * pr["c"] + v ** 4 * vk["s1"] + v ** 5 * vk["s2"]
    e = -r0 + v * ea + v ** 2 * eb + v ** 3 * ec + v ** 4 * s1 + v ** 5 * s2 + u * zw
    a1 = (pr["wxi"] + u * pr["wxiw"]) % PRIME
    b1 = (xi * pr["wxi"] + u * xi * w * pr["wxiw"] + f - e) % PRIME
    return a1, b1

# ---------------------------------------------------------------- K06
def how_failed(e):
    h = e.how
    return "fails on a satisfied circuit (%s, %s at %s)" % (h[0], str(h[1])[:60], h[2])
# (snarkjs makes no key with a domain of less than eight rows: the quotient has 3n+6 coefficients)
CIRCS = (dict(n=8, npub=1, nadd=1, npriv=3), dict(n=8, npub=2, nadd=2, npriv=4, seed=2), dict(n=8, npub=3, nadd=0, npriv=2, seed=3, nc=6), dict(n=16, npub=1, nadd=3, npriv=5, seed=4, nc=13),
         dict(n=8, npub=1, nadd=1, npriv=2, seed=5, zero="mo"), dict(n=8, npub=0, nadd=1, npriv=3, seed=7, nc=7))

def made_in(R, x):
    """the function of the round that makes proof element x"""
    def has(E, v, n, seen):
        if isinstance(v, (Agg, list)):
            if id(v) in seen:
                return False
            seen.add(id(v))
            return any(has(E, y, n, seen) for y in (v.f if isinstance(v, Agg) else v if len(v) < 64 else ()))
        try:
            return E.num(v) % PRIME == n
        except (Undecided, TypeError, AttributeError):
            return False
    for (f, *_), out in zip(R.ch.runs, R.res):
        if has(R.E[0], out[0], R.proofs[0][x], set()):
            return f
    return R.ch.fn
def accumulator(c, be, ga):
    z, out = 1, []
    for j in range(c.n):
        out.append(z)
        num_ = den = 1
        for x, k, s in zip("abc", (1, c.k1, c.k2), ("s1_poly", "s2_poly", "s3_poly")):
            v = wire(c, x, j)
            num_ = num_ * (v + be * k * pow(c.w, j, PRIME) + ga) % PRIME
            den = den * (v + be * c.polys[s][1][4 * j] + ga) % PRIME
        z = z * num_ * inv_(den) % PRIME
    return out
def wire(c, x, j):
    return c.vals[c.map[x][j]] if j < c.nc else 0
def satisfied(c, pr):
    a1, b1 = sides(c.vk(), pr, c.pub, c.n, challenges(c.vk(), pr, c.pub))
    return a1 * c.tau % PRIME == b1
def valid_proof(cx, ch, kw, nt, at):
    c = Circ(**kw)
    R = PRun(cx, ch, c, nt)
    if R.why:
        return R.why[0], None
    if any(p != R.proofs[0] for p in R.proofs):
        return "the parties end with different proofs", None
    if satisfied(c, R.proofs[0]):
        return None, R.proofs[0]
    return locate(cx, ch, kw, nt, at), None
def at_rows(cx, ch, kw, nt, rows, at):
    """commitments under a reference string at a row of the domain are the values the polynomials must have there"""
    for j in rows:
        c = Circ(**kw)
        c.tau = pow(c.w, j, PRIME)
        R = PRun(cx, ch, c, nt)
        pr = R.proofs[0]
        for x in "abc":
            if pr[x] != wire(c, x, j) % PRIME:
                at.append(made_in(R, x))
                return "the polynomial of wire %s does not have the wire's value at row %d of %d" % (x, j, c.n)
        cc = challenges(c.vk(), pr, c.pub)
        if pr["z"] != accumulator(c, cc["beta"], cc["gamma"])[j]:
            at.append(made_in(R, "z"))
            return "the permutation accumulator is wrong at row %d of %d" % (j, c.n)
def fixed(n):
    def prep(E):
        E.fixchal = n
    return prep
def fixchals(E):
    return [v for v in E.__dict__.get("chals", [])]
def locate(cx, ch, kw, nt, blame):
    """which part of the proof is not what the protocol prescribes"""
    c = Circ(**kw)
    R = PRun(cx, ch, c, nt)
    r = at_rows(cx, ch, kw, nt, (0, 1, c.n - 1), blame)
    if r:
        return r
    # the polynomials at other points, with challenges that depend on nothing but their number
    def at(tau):
        d = Circ(**kw)
        d.tau = tau
        R = PRun(cx, ch, d, nt, prep=fixed(7))
        return R.proofs[0], R.E[0].__dict__.get("chals", [])
    p0, chs = at(c.tau)
    if len(chs) >= 5:
        be, ga, al, xi = chs[:4]
        p1, _ = at(c.tau * c.w % PRIME)
        tau, n = c.tau, c.n
        L, zh = lagrange1(n, c.w, c.npub, tau)
        pi = -sum(x * l for x, l in zip(c.pub, L)) % PRIME
        a, b, cc, z = [p0[k] for k in "abcz"]
        q = {k: c.at("q%s_poly" % k, tau) for k in "mlroc"}
        s = [c.at("s%d_poly" % k, tau) for k in (1, 2, 3)]
        num_ = a * b * q["m"] + a * q["l"] + b * q["r"] + cc * q["o"] + pi + q["c"]
        num_ += al * (a + be * tau + ga) * (b + be * c.k1 * tau + ga) * (cc + be * c.k2 * tau + ga) * z
        num_ -= al * (a + be * s[0] + ga) * (b + be * s[1] + ga) * (cc + be * s[2] + ga) * p1["z"]
        num_ += al * al * (z - 1) * L[0]
        T_ = (p0["t1"] + pow(tau, n, PRIME) * p0["t2"] + pow(tau, 2 * n, PRIME) * p0["t3"]) % PRIME
        if T_ * zh % PRIME != num_ % PRIME:
            blame.append(made_in(R, "t1"))
            return "the quotient polynomial is not the constraint combination divided by the vanishing polynomial"
        px, _ = at(xi)
        for k in "abc":
            if p0["eval_" + k] != px[k]:
                blame.append(made_in(R, "eval_" + k))
                return "eval_%s is not the value of polynomial %s at xi" % (k, k)
        for k in (1, 2):
            if p0["eval_s%d" % k] != c.at("s%d_poly" % k, xi):
                blame.append(made_in(R, "eval_s%d" % k))
                return "eval_s%d is not the value of s%d at xi" % (k, k)
        pw, _ = at(xi * c.w % PRIME)
        if p0["eval_zw"] != pw["z"]:
            blame.append(made_in(R, "eval_zw"))
            return "eval_zw is not the value of the accumulator at xi*w"
        if (tau - xi * c.w) * p0["wxiw"] % PRIME != (p0["z"] - p0["eval_zw"]) % PRIME:
            blame.append(made_in(R, "wxiw"))
            return "the second opening polynomial is not (z - eval_zw)/(x - xi*w)"
        blame.append(made_in(R, "wxi"))
        return "the linearisation or first opening polynomial is not what the protocol prescribes"
    return "the proof does not satisfy the verification equation"
PLNT = {"plain": ((3, 1),), "shamir": ((3, 1), (4, 1))}
def K06(cx):
    for drv in ("plain", "shamir"):
        rule = "the %s prover's polynomials satisfy the Plonk equations" % drv
        ch = Chain(cx, drv)
        blame = []
        def test():
            try:
                for i, kw in enumerate(CIRCS):
                    for nt in PLNT[drv] if i == 1 else PLNT[drv][:1]:
                        w, pr = valid_proof(cx, ch, kw, nt, blame)
                        if w:
                            return w
                for kw in CIRCS[1:3]:
                    w = at_rows(cx, ch, kw, PLNT[drv][0], (0, 1, kw["n"] - 1), blame)
                    if w:
                        return w
            except Failed as e:
                blame.append(cx.p.fns.get(e.how[3]) or ch.fn)
                return how_failed(e)
        cx.decide(lambda: blame[-1] if blame else ch.fn, rule, test, "the proof satisfies the verification equation under the protocol's own challenges on %d circuits; wires and accumulator have their values on the rows" % len(CIRCS))

# ---------------------------------------------------------------- K01
CHN = ("beta", "gamma", "alpha", "xi", "v", "u")
def entries(vk, pr, pub, c):
    P_ = lambda n: ("p", pr[n])
    S_ = lambda n: ("s", pr[n])
    return {"beta": [("p", vk[k]) for k in ("qm", "ql", "qr", "qo", "qc", "s1", "s2", "s3")] + [("s", x) for x in pub] + [P_("a"), P_("b"), P_("c")],
            "gamma": [("s", c["beta"])], "alpha": [("s", c["beta"]), ("s", c["gamma"]), P_("z")],
            "xi": [("s", c["alpha"]), P_("t1"), P_("t2"), P_("t3")],
            "v": [("s", c["xi"])] + [S_(n) for n in ("eval_a", "eval_b", "eval_c", "eval_s1", "eval_s2", "eval_zw")],
            "u": [P_("wxi"), P_("wxiw")]}
def transcript_gap(E, vk, pr, pub, names):
    log = E.__dict__.get("challog", [])
    c = challenges(vk, pr, pub)
    ent = entries(vk, pr, pub, c)
    for n in names:
        want = tuple(tr_bytes(ent[n]))
        if ("be", want) in log:
            continue
        if ("le", want) in log:
            return "%s is reduced from the hash in the wrong byte order" % n
        near = [x for o, x in log if len(x) == len(want)]
        less = [x for o, x in log if len(x) < len(want) and set(x) <= set(want) and len(x) > len(want) // 2]
        # what is wrong with the closest transcript
        cand = [x for x in near if sorted(x) == sorted(want)]
        if cand:
            return "the transcript of %s has the right entries in another order or byte order" % n
        per = [tr_bytes([e]) for e in ent[n]]
        best = max((x for o, x in log), key=lambda x: len(set(x) & set(want)), default=())
        miss = [k for k, b in enumerate(per) if not set(b) <= set(best)]
        return "no challenge is derived from the transcript of %s%s" % (n, " (entry %d of %d is missing or different in the closest one)" % (miss[0] + 1, len(per)) if miss else "")
def vrun(cx, seed=1, npub=2, power=3, pr=None, vk=None, pub=None, nvk=None):
    """evaluates verify on a random key and proof"""
    f = cx.meth1("CoPlonk", "verify", None, "co_plonk")
    r = cx.__dict__.setdefault("_plverify", None) or cx.run(f, as_=("vk", "proof", "pub"))
    cx._plverify = r
    H = lambda *x: hnum("ver", seed, *x)
    vk = vk or {k: H("vk", k) for k in ("qm", "ql", "qr", "qo", "qc", "s1", "s2", "s3", "k1", "k2")}
    pr = pr or {k: H("pr", k) for k in PE}
    pub = [H("pub", i) for i in range(npub)] if pub is None else pub
    vals = {"vk." + k: v for k, v in vk.items()}
    vals.update({"proof." + k: v for k, v in pr.items()})
    vals.update({"vk.n_public": len(pub) if nvk is None else nvk, "vk.power": power, "pub": list(pub)})
    apps = {**field_apps(cx), **fft_apps(cx), **transcript_apps(cx), "Pairing::pairing": lambda E, a: E.num(a[0]) * E.num(a[1]) % PRIME}
    def env(x2):
        return Env(seed=seed, vals={**vals, "vk.x2": x2}, lens={}, deflen=3, bools=honest, appfn=apps)
    return f, r, env, vk, pr, pub
def K01(cx):
    for drv in ("plain", "shamir"):
        rule = "the %s prover derives its challenges from the protocol's transcripts" % drv
        ch = Chain(cx, drv)
        def test():
            try:
                for kw in CIRCS[:3] + CIRCS[4:]:
                    c = Circ(**kw)
                    R = PRun(cx, ch, c, PLNT[drv][0])
                    for E in R.E:
                        w = transcript_gap(E, c.vk(), R.proofs[0], c.pub, CHN[:5])
                        if w:
                            return w
            except Failed as e:
                return how_failed(e)
        cx.decide(ch.fn, rule, test, "beta, gamma, alpha, xi and v are reductions of the hashes of exactly the prescribed entries")
    rule = "the verifier derives its challenges from the protocol's transcripts"
    f = cx.meth1("CoPlonk", "verify", None, "co_plonk")
    def test():
        for seed, npub, power in ((1, 2, 3), (2, 1, 4), (3, 0, 3), (4, 5, 5)):
            for zero in ((), ("a", "t3"), ("wxiw",), ("eval_a",)):
                H = lambda *x: hnum("ver", seed, *x)
                pr = {k: 0 if k in zero else H("pr", k) for k in PE}
                f, r, env, vk, pr, pub = vrun(cx, seed, npub, power, pr=pr)
                E = env(5)
                E.fails(r.ev)
                w = transcript_gap(E, vk, pr, pub, CHN)
                if w:
                    return w
    cx.decide(f, rule, test, "all six challenges are reductions of the hashes of exactly the prescribed entries")

# ---------------------------------------------------------------- Z05 (Plonk)
def Z05p(cx):
    f = cx.meth1("CoPlonk", "verify", None, "co_plonk")
    rule = "Plonk verification accepts exactly the proofs that satisfy the verification equation"
    def verdict(r, E):
        b = E.fails(r.ev)
        if not b:
            v = E.ev(r.ret)
            return "ok" if not (isinstance(v, Agg) and v.key == RES and v.var == 1) else "err"
        return "panic" if b[0] != "err" else "err:" + err_name(cx, E, b[1])
    def test():
        for seed, npub, power in ((1, 2, 3), (2, 1, 4), (3, 0, 3), (4, 5, 5), (5, 9, 3)):
            f, r, env, vk, pr, pub = vrun(cx, seed, npub, power)
            a1, b1 = sides(vk, pr, pub, 1 << power, challenges(vk, pr, pub))
            x2 = b1 * inv_(a1) % PRIME
            v = verdict(r, env(x2))
            if v != "ok":
                return "a proof that satisfies the verification equation is not accepted (%d public inputs)" % npub
            for d in (1, 2, hnum("dx", seed)):
                v = verdict(r, env(x2 + d))
                if v == "ok":
                    return "accepts a proof whose pairing check fails"
                if v != "err:InvalidProof":
                    return "a failed check is not reported as an invalid proof (%s)" % v
            pts = [k for k in PE if not k.startswith("eval")]
            for zero in ([[k] for k in PE] + [["wxi", "wxiw"], pts, [k for k in PE if k not in pts], ["a", "b", "c", "z"], ["t1", "t2", "t3"]] if seed == 1 else ()):
                pr0 = {k: 0 if k in zero else hnum("ver", seed, "pr", k) for k in PE}
                f, r, env, vk, pr, pub = vrun(cx, seed, npub, power, pr=pr0)
                a1, b1 = sides(vk, pr, pub, 1 << power, challenges(vk, pr, pub))
                if a1 and verdict(r, env(b1 * inv_(a1) % PRIME)) == "panic":
                    return "a proof with %s = 0 is a panic" % "/".join(zero)
                if b1 and any(verdict(r, env((b1 * inv_(a1) if a1 else 0) + d)) == "ok" for d in (1, 5)):
                    return "accepts a proof with %s = 0 whose pairing check fails" % "/".join(zero)
            for nvk in (npub + 1, npub - 1, 0, npub + 7):
                if nvk == npub or nvk < 0:
                    continue
                f, r, env, vk, pr, pub = vrun(cx, seed, npub, power, nvk=nvk)
                v = verdict(r, env(x2))
                if v == "ok" or v == "panic" or v == "err:InvalidProof":
                    return "a wrong number of public inputs is %s" % {"ok": "accepted", "panic": "a panic", "err:InvalidProof": "not reported as such"}[v]
            f, r, env, vk, pr, pub = vrun(cx, seed, npub, 2 + adicity(E_(cx)) - 1)
            if verdict(r, env(x2)) in ("ok", "panic"):
                return "a domain that does not exist is not an error"
    cx.decide(f, rule, test, "accepted for exactly the one reference string under which the equation holds; malformed inputs are errors")
def E_(cx):
    return vrun(cx)[2](1)
def err_name(cx, E, d):
    if type(d) is T and d.op == "agg":
        a = cx.p.adts.get(d.args[0])
        if a and a["kind"] == "enum":
            return a["variants"][d.args[1]][0]
    return "?"

# ---------------------------------------------------------------- K02
def K02(cx):
    for drv in ("plain", "shamir"):
        rule = "the %s prover blinds with eleven independent fresh values" % drv
        ch = Chain(cx, drv)
        nt = PLNT[drv][0]
        def run_(kw, pert=None, tau=None):
            c = Circ(**kw)
            if tau is not None:
                c.tau = tau
            R = PRun(cx, ch, c, nt, prep=fixed(3), pert=pert)
            return R, R.proofs[0]
        def test():
            kw = CIRCS[0]
            c0 = Circ(**kw)
            R, base = run_(kw)
            infl = {}
            for k in R.draws:
                _, p = run_(kw, {k: hnum("delta", k)})
                d = {x: (p[x] - base[x]) % PRIME for x in PE if p[x] != base[x]}
                if d:
                    infl[k] = d
            first = {k: [x for x in "abcz" if x in d] for k, d in infl.items()}
            many = [v for v in first.values() if len(v) > 1]
            if many:
                return "one random value blinds %s" % " and ".join(many[0])
            for x, need in (("a", 2), ("b", 2), ("c", 2), ("z", 3)):
                ks = [k for k, v in first.items() if v == [x]]
                if len(ks) != need:
                    return "%s is blinded by %d fresh random values instead of %d" % (x, len(ks), need)
                rows = [[infl[k][x]] for k in ks]
                for m in range(1, need):
                    tau = (c0.tau + 17 * m + 3) % PRIME
                    _, b = run_(kw, tau=tau)
                    for row, k in zip(rows, ks):
                        _, p = run_(kw, {k: hnum("delta", k)}, tau)
                        row.append((p[x] - b[x]) % PRIME)
                if rank(rows) < need:
                    return "the blinding values of %s do not blind it at %d points" % (x, need)
            rest = [k for k, v in first.items() if not v]
            if len(rest) != 2:
                return "the quotient polynomial is split with %d random values instead of 2" % len(rest)
            tau, n = c0.tau, c0.n
            rows = [[infl[k].get(x, 0) for x in ("t1", "t2", "t3")] for k in rest]
            if rank(rows) < 2:
                return "the two values that split the quotient polynomial are not independent"
            for row in rows:
                if (row[0] + pow(tau, n, PRIME) * row[1] + pow(tau, 2 * n, PRIME) * row[2]) % PRIME:
                    return "splitting the quotient polynomial changes it"
            for k in rest:
                if set(infl[k]) - {"t1", "t2", "t3", "wxi"}:
                    return "a value that splits the quotient polynomial also changes %s" % sorted(set(infl[k]) - {"t1", "t2", "t3", "wxi"})[0]
        def safe():
            try:
                return test()
            except Failed as e:
                return how_failed(e)
        cx.decide(ch.fn, rule, safe, "eleven draws influence the proof: two each for a, b, c, three for z, two for the split of t, each nowhere else, all independent")

# ---------------------------------------------------------------- K04 (Plonk)
OPENS = ("openhp", "opent", "open2t", "open2tv", "opentv")
class Opened:
    """what is opened in one evaluation, in order, as secrets"""
    def __init__(self, cx, ch, c, nt, pert=None):
        self.raw = False
        self.vals = []
        def collect(f, r, envs, ev):
            evs = ev(lambda E: comm_of(r.ev, E))
            raw = []
            envs[0].trace(r.ev, out=raw, kinds=("send", "recv"))
            self.raw |= bool(raw)
            for k, x in enumerate(evs[0]):
                if x[0] == "comm" and x[1] in OPENS:
                    ys = [nsh(E, e[k][4]) for E, e in zip(envs, evs)]
                    xs = list(range(1, len(envs) + 1))
                    if isinstance(ys[0], list):
                        self.vals += [(interp_at(xs, [y[m] for y in ys]), f) for m in range(len(ys[0]))]
                    else:
                        self.vals.append((interp_at(xs, ys), f))
        self.R = PRun(cx, ch, c, nt, prep=fixed(3), pert=pert, collect=collect)
def power_of(x, y, f):
    """e such that y = x * f^e, for small e"""
    for e in (0, 1, -1, 2, -2, 3, -3):
        if y == x * (pow(f, e, PRIME) if e >= 0 else pow(inv_(f), -e, PRIME)) % PRIME:
            return e
    return None
def rank_mod(rows, p):
    rows = [[x % p for x in r] for r in rows]
    rk = 0
    for col in range(len(rows[0]) if rows else 0):
        pv = next((i for i in range(rk, len(rows)) if rows[i][col]), None)
        if pv is None:
            continue
        rows[rk], rows[pv] = rows[pv], rows[rk]
        iv = pow(rows[rk][col], -1, p)
        rows[rk] = [x * iv % p for x in rows[rk]]
        for i in range(len(rows)):
            if i != rk and rows[i][col]:
                f = rows[i][col]
                rows[i] = [(x - f * y) % p for x, y in zip(rows[i], rows[rk])]
        rk += 1
    return rk
def K04p(cx):
    ch = Chain(cx, "shamir")
    rule = "the Plonk prover opens the elements of the proof and masked values, nothing else"
    bad_at = []
    def test():
        nt, kw = (3, 1), CIRCS[0]
        c = Circ(**kw)
        O0 = Opened(cx, ch, c, nt)
        if O0.raw:
            return "sends something outside the openings and multiplications of the protocol"
        pr = O0.R.proofs[0]
        pubs = set(pr.values())
        msk = [k for k, (x, f) in enumerate(O0.vals) if x not in pubs]
        dep = {k: {} for k in msk}
        n = 0
        for k in O0.R.draws:
            f = hnum("factor", n)
            n += 1
            O1 = Opened(cx, ch, c, nt, {k: lambda x: x * f})
            if len(O1.vals) != len(O0.vals):
                raise Undecided("the number of openings depends on values")
            changes = O1.R.proofs[0] != pr
            for m in msk:
                x, y = O0.vals[m][0], O1.vals[m][0]
                e = power_of(x, y, f)
                if changes and e != 0:
                    bad_at.append(O0.vals[m][1])
                    return "a blinding value of the proof influences another value that is opened"
                if e is None:
                    # an additive mask: the change is proportional to the change of the mask
                    f2 = (2 * f - 1) % PRIME
                    y2 = Opened(cx, ch, c, nt, {k: lambda x: x * f2}).vals[m][0]
                    if (y2 - x) % PRIME != 2 * (y - x) % PRIME:
                        raise Undecided("the mask of an opened value")
                    e = ("add", (y - x) % PRIME)
                if e:
                    dep[m][k] = e
        for m in msk:
            if not dep[m]:
                bad_at.append(O0.vals[m][1])
                return "a value that is neither masked nor part of the proof is opened"
            if not any(isinstance(e, tuple) or e % 2 for e in dep[m].values()):
                bad_at.append(O0.vals[m][1])
                return "an opened value is masked by a square only"
        keys = sorted({k for m in msk for k in dep[m]}, key=str)
        mul_ = [m for m in msk if not any(isinstance(e, tuple) for e in dep[m].values())]
        add_ = [m for m in msk if m not in mul_]
        for q in (PRIME, 2):
            if rank_mod([[dep[m].get(k, 0) for k in keys] for m in mul_], q) < len(mul_):
                # the first opening that adds no mask of its own
                for j in range(1, len(mul_) + 1):
                    if rank_mod([[dep[m].get(k, 0) for k in keys] for m in mul_[:j]], q) < j:
                        bad_at.append(O0.vals[mul_[j - 1]][1])
                        return "opened values share their masks: a quotient of them reveals unmasked values"
        if add_:
            used = {k for m in mul_ for k in dep[m]}
            rows = [[(dep[m][k][1] if isinstance(dep[m].get(k), tuple) else 0) for k in keys if k not in used] for m in add_]
            if rank(rows) < len(add_):
                raise Undecided("openings under mixed masks")
    def safe():
        try:
            return test()
        except Failed as e:
            return how_failed(e)
    cx.decide(lambda: bad_at[-1] if bad_at else ch.fn, rule, safe, "every opened value is an element of the proof or masked by fresh random factors of its own")

# ---------------------------------------------------------------- Z06, Z07 (Plonk)
def Z07p(cx):
    ch = Chain(cx, "shamir")
    for f, r, *_ in ch.runs:
        legs(cx, f, r, "concurrent parts of the round use networks and states of their own")
    legs(cx, ch.fn, ch.top, "concurrent parts use networks and states of their own")
class Account:
    """correlated pairs prepared, handed to forks and used, over one evaluation"""
    def __init__(self, cx, ch, c, nt):
        self.have, self.used, self.prep, self.bad, self.at = {}, {}, [], None, None
        pend = []
        def collect(f, r, envs, ev):
            acts = ev(lambda E: comm_of(r.ev, E, ("comm", "fork", "prep")))[0]
            pend.append((f, acts))
        self.R = PRun(cx, ch, c, nt, collect=collect)
        E = self.R.E[0]
        for f, acts in [pend[-1]] + pend[:-1]:
            for a in acts:
                if a[0] == "prep":
                    self.prep.append(E.sint(a[3]))
                    self.have["state0"] = self.have.get("state0", 0) + E.sint(a[3])
                elif a[0] == "fork":
                    p, k, n = name_of(a[1]), name_of(a[2]), E.sint(a[3])
                    self.take(f, p, n, "a fork takes")
                    self.have[k] = self.have.get(k, 0) + n
                elif a[0] == "comm":
                    n = {"rand": 1, "dr": 1}.get(a[1], 0)
                    if a[1] == "drv":
                        n = len(E.seq(a[4]))
                    self.take(f, name_of(a[3]), n, "uses")
    def take(self, f, s, n, how):
        if s not in self.have:
            if n:
                raise Undecided("the protocol state %s" % s)
            return
        self.used[s] = self.used.get(s, 0) + n
        if self.used[s] > self.have[s] and not self.bad:
            self.bad = "%s %d correlated pair(s) more than %s" % (how, self.used[s] - self.have[s], "were prepared" if s == "state0" else "the forked state was given")
            self.at = f
def Z06p(cx):
    ch = Chain(cx, "shamir")
    rule = "the Plonk prover prepares the correlated pairs it uses, for every domain size"
    at = []
    def test():
        try:
            line = {}
            for kw in (CIRCS[0], CIRCS[1], dict(n=16, npub=1, nadd=3, npriv=5, seed=4, nc=13), dict(n=32, npub=2, nadd=1, npriv=9, seed=6, nc=25)):
                A_ = Account(cx, ch, Circ(**kw), (3, 1))
                if A_.bad:
                    at.append(A_.at)
                    return A_.bad
                if len(A_.prep) != 1:
                    return "%d preprocessings are made" % len(A_.prep)
                for s in A_.have:
                    line.setdefault(s, {}).setdefault(kw["n"], set()).add((A_.have[s], A_.used.get(s, 0)))
            for s, d in line.items():
                if any(len({u for _, u in v}) > 1 for v in d.values()) or set(d) != {8, 16, 32}:
                    raise Undecided("pairs used depend on more than the domain size")
                h, u = [[max(x[i] for x in d[n]) for n in (8, 16, 32)] for i in (0, 1)]
                for y in (h, u):
                    if (y[2] - y[1]) != 2 * (y[1] - y[0]):
                        raise Undecided("the number of pairs is not affine in the domain size")
                if h[1] - h[0] < u[1] - u[0]:
                    at.append(ch.fn)
                    return "%s uses %d pairs per row but is given %d: large circuits run out" % ("the state" if s == "state0" else "a forked state", (u[1] - u[0]) // 8, (h[1] - h[0]) // 8)
        except Failed as e:
            return how_failed(e)
    cx.decide(lambda: at[-1] if at else ch.fn, rule, test, "pairs used <= pairs prepared for 8, 16 and 32 rows, both affine in the number of rows")

# ---------------------------------------------------------------- K03
def K03(cx):
    S, H, Pb = "sh", "hs", "pub"
    ffts = fft_apps(cx)
    op = lambda name, as_, cases, want, got, out, **kw: same_op(cx, name, as_, cases, want, got, out, trait=PDRV, types=PTYPES, ov=pl_contracts(cx), apps=ffts, **kw)
    val, okv = (lambda r: r.ret), (lambda r: r.ok())
    one = lambda **k: [(Inp(**{x: (y, None) for x, y in k.items()}), None, None)]
    ns = (0, 1, 3, 5)
    vec = lambda sizes=ns, **k: [(Inp(**{x: (y, n) for x, y in k.items()}), None, None) for n in sizes]
    z = lambda f: (lambda s, e: [f(*x) for x in zip(*[s[k] for k in sorted(s)])])
    op("add", ("a", "b"), one(a=S, b=S), lambda s, e: s["a"] + s["b"], val, S)
    op("sub", ("a", "b"), one(a=S, b=S), lambda s, e: s["a"] - s["b"], val, S)
    op("add_with_public", ("id", "a", "b"), one(a=S, b=Pb), lambda s, e: s["a"] + s["b"], val, S)
    op("mul_with_public", ("a", "b"), one(a=S, b=Pb), lambda s, e: s["a"] * s["b"], val, S)
    op("promote_to_trivial_share", ("id", "a"), one(a=Pb), lambda s, e: s["a"], val, S)
    op("neg_vec_in_place", ("a",), vec(a=S), lambda s, e: [-x for x in s["a"]], lambda r: r.after("a"), S)
    op("local_mul_vec", ("a", "b", "state"), vec(a=S, b=S), z(lambda a, b: a * b), val, H)
    op("io_round_mul_vec", ("a", "net", "state"), vec(a=H), lambda s, e: s["a"], okv, S)
    op("mul_vec", ("a", "b", "net", "state"), vec(a=S, b=S), z(lambda a, b: a * b), okv, S)
    op("mul_vecs", ("a", "b", "c", "net", "state"), vec(a=S, b=S, c=S), z(lambda a, b, c: a * b * c), okv, S)
    op("add_mul_vec", ("a", "b", "c", "net", "state"), vec(a=S, b=S, c=S), z(lambda a, b, c: a + b * c), okv, S)
    op("mul_open_vec", ("a", "b", "net", "state"), vec(a=S, b=S), z(lambda a, b: a * b), okv, Pb)
    op("open_vec", ("a", "net", "state"), vec(a=S), lambda s, e: s["a"], okv, Pb)
    op("inv_vec", ("a", "net", "state"), vec(a=S), lambda s, e: [inv_(x) for x in s["a"]], okv, S)
    op("open_point_g1", ("a", "net", "state"), one(a=S), lambda s, e: s["a"], okv, Pb)
    op("open_point_vec_g1", ("a", "net", "state"), vec(a=S), lambda s, e: s["a"], okv, Pb)
    op("msm_public_points_g1", ("points", "scalars"), [(Inp(points=(Pb, n), scalars=(S, n)), None, None) for n in ns], lambda s, e: sum(x * y for x, y in zip(s["points"], s["scalars"])), val, S)
    def prefix(inv):
        def w(s, e):
            out, p = [], 1
            for x, y, v in zip(s["a"], s["b"], s["c"]):
                p = p * x * y * v % PRIME
                out.append(inv_(p) if inv else p)
            return out
        return w
    for inv in (False, True):
        cases = [(Inp(a=(S, n), b=(S, n), c=(S, n)), {"inv": inv}, None) for n in (1, 2, 3, 6)]
        op("array_prod_mul", ("inv", "a", "b", "c", "net", "state"), cases, prefix(inv), okv, S, what="gives %s prefix products" % ("inverted" if inv else "the"))
    pol = [(Inp(poly=(S, n), x=(Pb, None)), None, None) for n in (1, 2, 3, 5)]
    op("evaluate_poly_public", ("poly", "x"), pol, lambda s, e: ev_poly(s["poly"], s["x"]), lambda r: field(r.ret, 0, "0") if r.ret is not None else None, S)
    op("evaluate_poly_public", ("poly", "x"), pol, lambda s, e: s["poly"], lambda r: field(r.ret, 1, "1") if r.ret is not None else None, S, what="gives back the coefficients")
    dom = lambda n: ffts["EvaluationDomain::new"](E_(cx), [n]).f[0]
    gen_ = lambda n: pow(_ark(E_(cx)), 1 << (adicity(E_(cx)) - n.bit_length() + 1), PRIME)
    for name, want in (("fft", lambda s, e: dft((s["a"] + [0] * 8)[:8], gen_(8))), ("ifft", lambda s, e: idft((s["a"] + [0] * 8)[:8], gen_(8)))):
        op(name, ("a", "domain"), [(Inp(a=(S, n)), {"domain": dom(8)}, None) for n in (8, 5, 1)], want, val, S, what="is the transform over the given domain")
    # rand
    for drv, f in drivers(cx, "rand", PDRV, PTYPES):
        r = cx.run(f, as_=("net", "state"), ov=pl_contracts(cx) if drv == "shamir" else None)
        x = r.ok()
        def test():
            if x is None:
                return "never returns"
            if drv == "plain":
                ds = apps_in([x], "draw")
                if len(ds) != 1 or x is not ds[0]:
                    return "is not one fresh random value"
            else:
                ks = apps_in([x], "rt")
                if len(ks) != 1:
                    return "does not use exactly one correlated pair"
                J = Inp().joint(cx, 3, 1, 1)
                if J.secret(x, 1) != J.secret_rt(J.E[0].num(J.E[0].ev(ks[0].args[-1])) % PRIME):
                    return "is not a fresh random sharing"
        cx.decide(f, "rand of the %s driver is a fresh random value" % drv, test)

# ---------------------------------------------------------------- K05
def misfits():
    """(what, circuit whose witness or wire maps do not fit, values to replace)"""
    for kw in (CIRCS[1], CIRCS[2], CIRCS[5]):
        c = Circ(**kw)
        for x in "abc":
            for row in (0, c.nc - 1):
                for bad in (c.nvars, c.nvars + 1, c.nvars + 1000, 2 ** 31):
                    m = list(c.map[x])
                    m[row] = bad
                    yield "a wire map refers to signal %s" % ("n_vars" if bad == c.nvars else "beyond n_vars"), Circ(**kw), {"zkey.map_" + x: m}
        for k in range(c.nadd):
            for w in (1, 2):
                for bad, how in ((c.nvars, "refers beyond the last signal"), (c.nvars + 5, "refers beyond the last signal"), (1 + c.npub + c.npriv + k, "refers to itself"), (c.nvars - 1, "refers to a later addition")):
                    yield "an addition " + how, Circ(**kw), {"zkey.additions[%d].signal_id%d" % (k, w): bad}
        used = {v for x in "abc" for v in c.map[x]} | {v for a in c.adds for v in a[:2]}
        for cut in range(1, c.npriv + 1):
            if any(c.npub + c.npriv - cut < v <= c.npub + c.npriv for v in used):
                d = Circ(**kw)
                d.priv = d.priv[:-cut]
                yield "the private witness is %d values short" % cut, d, {}
        for cut in range(1, c.npub + 1):
            d = Circ(**kw)
            d.pub = d.pub[:-cut]
            yield "the public inputs are %d values short" % cut, d, {}
        yield "there are no public inputs, not even the leading one", Circ(**kw), {"w.public_inputs": []}
        for n in (0, 6, 12):
            yield "the domain size %d is no power of two" % n, Circ(**kw), {"zkey.domain_size": n}
def K05(cx):
    for drv in ("plain", "shamir"):
        ch = Chain(cx, drv)
        rule = "the %s prover rejects a witness or wire map that does not fit with an error" % drv
        at = []
        def test():
            n = 0
            for what, c, extra in misfits():
                n += 1
                if drv == "shamir" and n % 4:
                    continue
                try:
                    PRun(cx, ch, c, PLNT[drv][0], extra=extra)
                except Failed as e:
                    if e.how[0] == "err":
                        continue
                    at.append(cx.p.fns.get(e.how[3]) or ch.fn)
                    return "panics (%s at %s) when %s" % (str(e.how[1])[:40], e.how[2], what)
                return "makes a proof although %s" % what
        cx.decide(lambda: at[-1] if at else ch.fn, rule, test, "every misfit of the list ends in an error")
