from .. import terms as t
from ..terms import *
from ..spec import *
from ..interp import rep, tystr
from ..models import M
import itertools
from ..evalt import P as PRIME, O, Agg, Env, Undecided
from ..system import System, Deadlock

FS = "ShamirPrimeFieldShare"
PS = "ShamirPointShare"
A = "mpc_core::protocols::shamir::arithmetic::"
PSH = "mpc_core::protocols::shamir::pointshare::"
SH = "mpc_core::protocols::shamir::"
NET = "mpc_core::protocols::shamir::network::ShamirNetworkExt::"

def adt_key(cx, name):
    r = [k for k, a in cx.p.adts.items() if k.split("::")[-1] == name and a.get("local")]
    if not r:
        raise Missing(name)
    return r[0]
def mkstruct(cx, name, **fields):
    """struct value by field names; fields not given are unit"""
    k = adt_key(cx, name)
    fs = cx.p.adts[k]["variants"][0][1]
    names = [f[0] for f in fs]
    for f in fields:
        if f not in names:
            raise Unclear("%s.%s" % (name, f))
    return agg(k, 0, [fields.get(n, UNIT) for n in names])
def fget(cx, v, name, adt=None):
    """field of a struct value by name"""
    k = v.args[0] if v.op == "agg" else adt
    for i, f in enumerate(cx.p.adts[k]["variants"][0][1]):
        if f[0] == name:
            return field(v, i, name)
    raise Unclear("field %s of %s" % (name, k))
def fset(cx, v, **kw):
    k = v.args[0]
    for name, x in kw.items():
        for i, f in enumerate(cx.p.adts[k]["variants"][0][1]):
            if f[0] == name:
                v = setfield(v, i, name, x)
                break
        else:
            raise Unclear("field %s of %s" % (name, k))
    return v
def inner(v):
    return field(v, 0, "a")
def fshare(cx, x):
    return mkstruct(cx, FS, a=x)
def pshare(cx, x):
    return mkstruct(cx, PS, a=x)

# ---------------------------------------------------------------- interpretations of a Shamir party
NT = ((3, 1), (4, 1), (5, 2), (7, 3))
# ---------------------------------------------------------------- field arithmetic of interpretations
def inv_(x):
    return pow(x % PRIME, PRIME - 2, PRIME)
def lag0(xs, x=0):
    """Lagrange coefficients at x for the points xs"""
    out = []
    for i in xs:
        num = den = 1
        for j in xs:
            if j != i:
                num, den = num * (x - j) % PRIME, den * (i - j) % PRIME
        out.append(num * inv_(den) % PRIME)
    return out
def interp_at(xs, ys, x=0):
    return sum(l * y for l, y in zip(lag0(xs, x), ys)) % PRIME
def poly_coeffs(xs, ys):
    """coefficients of the polynomial of degree < len(xs) through the points"""
    n = len(xs)
    res = [0] * n
    for i in range(n):
        c, d = [1], 1
        for j in range(n):
            if j != i:
                c = [((c[k - 1] if k else 0) - (c[k] * xs[j] if k < len(c) else 0)) % PRIME for k in range(len(c) + 1)]
                d = d * (xs[i] - xs[j]) % PRIME
        f = ys[i] * inv_(d) % PRIME
        for k in range(n):
            res[k] = (res[k] + c[k] * f) % PRIME
    return res
def ev_poly(cs, x):
    r = 0
    for c in reversed(cs):
        r = (r * x + c) % PRIME
    return r
def degree_of(xs, ys):
    c = poly_coeffs(xs, ys)
    while c and c[-1] == 0:
        c.pop()
    return len(c) - 1
def rank(rows):
    rows = [list(r) for r in rows]
    rk, col = 0, 0
    m = len(rows[0]) if rows else 0
    for col in range(m):
        pv = next((i for i in range(rk, len(rows)) if rows[i][col] % PRIME), None)
        if pv is None:
            continue
        rows[rk], rows[pv] = rows[pv], rows[rk]
        iv = inv_(rows[rk][col])
        rows[rk] = [x * iv % PRIME for x in rows[rk]]
        for i in range(len(rows)):
            if i != rk and rows[i][col]:
                f = rows[i][col]
                rows[i] = [(x - f * y) % PRIME for x, y in zip(rows[i], rows[rk])]
        rk += 1
    return rk
def hnum(*xs):
    from ..evalt import h
    return h(*xs) % PRIME
def nsh(E, v):
    """numbers of a (list of) share(s)"""
    if isinstance(v, list):
        return [nsh(E, x) for x in v]
    return E.num(v) % PRIME
def okval(E, v):
    if isinstance(v, Agg) and v.key == RES:
        if v.var != 0:
            return None
        return v.f[0]
    return v

def shenvs(n=3, seeds=(1,), nts=NT, ids=None, extra=None, names=("state", "self", "value", "preprocessing"), **kw):
    def f():
        for N, th in nts:
            for i in (ids(N, th) if ids else range(N)):
                for s in seeds:
                    vals, lens = {}, {}
                    for p in names:
                        for q in ("", ".rng_buffer"):
                            vals[p + q + ".num_parties"] = N
                            vals[p + q + ".threshold"] = th
                            vals[p + q + ".id"] = i
                        lens[p + ".open_lagrange_t"] = th + 1
                        lens[p + ".open_lagrange_2t"] = 2 * th + 1
                        lens[p + ".mul_lagrange_2t"] = 2 * th + 1
                        lens[p + ".mul_reconstruct_with_zeros"] = th + 1
                    if extra:
                        extra(vals, lens, N, th, i)
                    E = Env(seed=s * 100 + N, vals=vals, lens=lens, deflen=n, bools=honest,
                            appfn={"netid": lambda E, a, i=i: i}, **kw)
                    E.N, E.t, E.id = N, th, i
                    yield E
    return f

# ---------------------------------------------------------------- contracts (each verified by the check that owns it)
def c_get_pair(it, fr, st, a, args, loc):
    """ShamirState::get_pair: the k-th call on a state yields the k-th pair (rt_k, r2t_k)"""
    k = pair_count(it, st, args[0], ONE)
    return ok(tup(mk("app", "rt", k), mk("app", "r2t", k)))
def c_rand(cx):
    def f(it, fr, st, a, args, loc):
        k = pair_count(it, st, args[0], ONE)
        return ok(fshare(cx, mk("app", "rt", k)))
    return f
def state_id(it, st, r):
    from ..models import final_ref
    r = final_ref(it, st, r)
    v = it.load(st, r)
    return v
def pair_count(it, st, r, n):
    c = ("g", "pairs", sid(it, st, r))
    v = st.store.get(c)
    if v is None:
        v = it.ghost_default(c)
    st.store[c] = add(v, n)
    return v
def sid(it, st, r):
    """identity of a party state: the name of its buffer"""
    v = it.deref_all(st, r)
    while v.op == "agg":
        # identified by its rng buffer (or the first record field that names it)
        nxt = None
        for x in v.args[2]:
            if x.op == "sym" and "seed" in x.args[0] or x.op == "agg" and x.args[0].endswith("ShamirRng"):
                nxt = x
        if nxt is None:
            nxt = v.args[2][0]
        v = nxt
    return v
def c_degree_reduce(cx):
    def f(it, fr, st, a, args, loc):
        k = pair_count(it, st, args[1], ONE)
        st.emit("comm", "dr", sid(it, st, args[0]), ONE)
        return ok(fshare(cx, mk("app", "dr", V0(it, st, args[2]), k)))
    return f
def c_degree_reduce_point(cx):
    def f(it, fr, st, a, args, loc):
        k = pair_count(it, st, args[1], ONE)
        st.emit("comm", "drp", sid(it, st, args[0]), ONE)
        return ok(pshare(cx, mk("app", "drp", V0(it, st, args[2]), k)))
    return f
def V0(it, st, x):
    return it.deref_all(st, x)
def c_degree_reduce_many(cx):
    def f(it, fr, st, a, args, loc):
        xs = V0(it, st, args[2])
        k = pair_count(it, st, args[1], length(xs))
        st.emit("comm", "dr", sid(it, st, args[0]), length(xs))
        return ok(gen(length(xs), lambda i: fshare(cx, mk("app", "dr", idx(xs, i), add(k, i)))))
    return f
def shamir_contracts(cx, *which):
    d = {"get_pair": (meth(cx, "ShamirState", "get_pair"), c_get_pair),
         "rand": (meth(cx, "ShamirState", "rand"), c_rand(cx)),
         "dr": (NET + "degree_reduce", c_degree_reduce(cx)),
         "drp": (NET + "degree_reduce_point", c_degree_reduce_point(cx)),
         "drm": (NET + "degree_reduce_many", c_degree_reduce_many(cx))}
    return {d[w][0]: d[w][1] for w in which}
def meth(cx, ty, name):
    return cx.meth1(ty, name).key
