"""M01, M02: Merkle trees over the Poseidon2 permutation, plain and on Shamir shares."""
from .common import *
from .poseidon import Ref, dims, contracts, Shared, OFF
from .algebra import Joint

MK = "mpc_core::gadgets::merkle_tree::"
def fn_of(cx, name):
    for k, f in cx.p.fns.items():
        if k.startswith(MK) and k.endswith("}::" + name) and f.body:
            return f
    raise Missing(MK + name)
def ilog(E, a):
    n, b, k = E.sint(a[0]), E.sint(a[1]), 0
    while n >= b:
        n, k = n // b, k + 1
    return k
APP = {"ilog": ilog}

def node(ref, mode, xs):
    x = list(xs) + [0] * (ref.T - len(xs))
    return (ref.perm(x)[0] + (x[0] if mode == "compression" else 0)) % PRIME
def layers(ref, mode, ar, x):
    out = [x]
    while len(x) > 1:
        x = [node(ref, mode, x[i:i + ar]) for i in range(0, len(x), ar)]
        out.append(x)
    return out
SHAPES = {"sponge": ((3, 2), (4, 3), (4, 2)), "compression": ((2, 2), (3, 2), (3, 3), (4, 4), (4, 2))}
ROUNDS = (1, 1, 0)
def sizes(ar, deep):
    return [ar ** k for k in range(1, {2: 4, 3: 3, 4: 2}[ar] + (1 if deep else 0))]
def bad_sizes(ar):
    return [n for n in range(ar + 1, ar * ar) if n not in (ar, ar * ar)][:3]

def M01(cx):
    """the root of a plain tree, its membership witness and the verifier agree with the tree the parameters prescribe"""
    deep = cx.tier == "thorough"
    for mode, shapes in SHAPES.items():
        for Tn, ar in shapes:
            gen = dict(dims(Tn), ARITY=("const", str(ar)))
            ref = Ref(1, Tn, 5, *ROUNDS)
            rule = "%s, width %d, arity %d" % (mode, Tn, ar)
            root(cx, mode, ref, ar, cx.run(fn_of(cx, "merkle_tree_" + mode), g=gen, as_=("self", "input")), rule, deep)
            witness(cx, mode, ref, ar, cx.run(fn_of(cx, "merkle_tree_%s_with_witness" % mode), g=gen, as_=("self", "input", "i")), rule, deep)
            verify(cx, mode, ref, ar, cx.run(fn_of(cx, "verify_merkle_path_" + mode), g=dims(Tn), as_=("self", "root", "leaf", "witness")), rule)

def tree_env(ref, x, **kw):
    v = dict(ref.vals())
    v.update({"input[%d]" % i: y for i, y in enumerate(x)})
    v.update(kw)
    return Env(seed=ref.seed, vals=v, lens={"input": len(x)}, deflen=ref.T, bools=honest, appfn=APP)
def root(cx, mode, ref, ar, r, rule, deep):
    def test():
        for n in sizes(ar, deep):
            x = [hnum("leaf", n, i) for i in range(n)]
            E = tree_env(ref, x)
            if E.fails(r.ev):
                return "fails on %d leaves (%s)" % (n, rule)
            if E.num(E.ev(r.ret)) % PRIME != layers(ref, mode, ar, x)[-1][0]:
                return "computes another root than that of the tree over %d leaves (%s)" % (n, rule)
        for n in bad_sizes(ar):
            E = tree_env(ref, [hnum("leaf", n, i) for i in range(n)])
            if not E.fails(r.ev):
                return "takes %d leaves, which is no power of the arity (%s)" % (n, rule)
    cx.decide(r.f if hasattr(r, "f") else fn_of(cx, "merkle_tree_" + mode), "root, " + rule, test)
def path(ls, ar, i):
    out = []
    for x in ls[:-1]:
        b = i // ar * ar
        out.append(([y for k, y in enumerate(x[b:b + ar]) if k != i % ar], i % ar))
        i //= ar
    return out
def witness(cx, mode, ref, ar, r, rule, deep):
    f = fn_of(cx, "merkle_tree_%s_with_witness" % mode)
    def test():
        for n in sizes(ar, deep):
            x = [hnum("leaf", n, i) for i in range(n)]
            ls = layers(ref, mode, ar, x)
            for i in (range(n) if n <= 4 else sorted({1, n // 2, n - 2})):
                E = tree_env(ref, x, i=i)
                if E.fails(r.ev):
                    return "fails on leaf %d of %d (%s)" % (i, n, rule)
                v = E.ev(r.ret)
                if E.num(v.f[0]) % PRIME != ls[-1][0]:
                    return "returns another root than that of the tree over %d leaves (%s)" % (n, rule)
                o, p = [fx(cx, "MerkleWitnessElement", q) for q in ("other", "position")]
                got = [([E.num(y) % PRIME for y in E.seq(w.f[o])], E.num(w.f[p])) for w in E.seq(v.f[1])]
                if got != path(ls, ar, i):
                    return "the witness of leaf %d of %d is not its path: siblings and positions from the leaf up (%s)" % (i, n, rule)
    cx.decide(f, "witness, " + rule, test)
def fx(cx, adt, name):
    return [n[0] for n in cx.p.adts[adt_key(cx, adt)]["variants"][0][1]].index(name)
def verify(cx, mode, ref, ar, r, rule):
    f = fn_of(cx, "verify_merkle_path_" + mode)
    def run(rt, leaf, w):
        v = dict(ref.vals()); v.update({"root": rt, "leaf": leaf})
        lens = {"witness": len(w)}
        for q, (o, p) in enumerate(w):
            v["witness[%d].position" % q] = p
            lens["witness[%d].other" % q] = len(o)
            v.update({"witness[%d].other[%d]" % (q, j): y for j, y in enumerate(o)})
        E = Env(seed=ref.seed, vals=v, lens=lens, deflen=ref.T, bools=honest, appfn=APP)
        if E.fails(r.ev):
            return None
        return bool(E.bool(E.ev(r.ret)))
    def test():
        for depth in (1, 2, 3):
            n = ar ** depth
            x = [hnum("leaf", n, i) for i in range(n)]
            ls = layers(ref, mode, ar, x)
            for i in sorted({0, 1, n // 2, n - 1} if depth < 3 else {n // 2}):
                w = path(ls, ar, i)
                R = ls[-1][0]
                tag = " (%s, depth %d)" % (rule, depth)
                if run(R, x[i], w) is not True:
                    return "rejects the path of leaf %d" % i + tag
                if run(R + 1, x[i], w) is not False or run(R, x[i] + 1, w) is not False:
                    return "accepts another root or leaf" + tag
                for q in range(depth):
                    o, p = w[q]
                    for alt in [(o[:j] + [o[j] + 1] + o[j + 1:], p) for j in range(len(o))] + [(o, (p + 1) % ar), (o, (p + ar - 1) % ar)]:
                        if run(R, x[i], w[:q] + [alt] + w[q + 1:]) is not False:
                            return "accepts a changed element of the path in layer %d" % q + tag
                    for alt in ((o, ar), (o, ar + 1)) + (((o + [5], p), (o[:-1], p)) if q else ()):
                        if run(R, x[i], w[:q] + [alt] + w[q + 1:]) is True:
                            return "accepts a malformed element of the path in layer %d" % q + tag
                if depth > 1 and (run(R, x[i], w[:-1]) is not False or run(R, x[i], w[1:]) is not False):
                    return "accepts a path that misses a layer" + tag
                if run(R, x[i], w + [([7] * (ar - 1), 0)]) is not False:
                    return "accepts a path with an extra layer" + tag
        # a malformed element must be rejected even where an evaluation that ignores it would end at the root
        for q in (0, 1):
            w = [([11 + j for j in range(ar - 1)], 0), ([31 + j for j in range(ar - 1)], 0)]
            w[q] = (w[q][0], ar)
            leaf = 3
            for k, (o, p) in enumerate(w):
                leaf = node(ref, mode, (o[:p] + [leaf] + o[p:]) if p < ar else (o + [0])[:ar])
            if run(leaf, 3, w) is True:
                return "accepts a position outside the node, where the leaf plays no part (%s)" % rule
    cx.decide(f, "verifier, " + rule, test)

# ---------------------------------------------------------------- on shares
def c_buffer(it, fr, st, a, args, loc):
    from .groth import emitc, sid, V0
    emitc(st, "buffer", sid(it, st, args[1]), sid(it, st, args[0]), V0(it, st, args[2]))
    return ok(tup())
class Tree(Shared):
    def __init__(self, cx, f, Tn, ar):
        self.cx, self.f, self.T, self.ar, self.perms = cx, f, Tn, ar, 0
        ov = contracts(cx)
        ov[cx.meth1("ShamirState", "buffer_triples").key] = c_buffer
        self.r = cx.run(f, g=dict(dims(Tn), ARITY=("const", str(ar))), as_=("self", "input", "net", "state"), ov=ov)
        self.sf = cx.p.adts[adt_key(cx, FS)]["variants"][0][1][0][0]
        self.out = self.r.ret
    def joint(self, N, th, ref, x, shift=None):
        J = TJ.__new__(TJ)
        J.n, J.t, J.seed, J.shift = N, th, ref.seed, shift
        def mkenv(i):
            vals = dict(ref.vals())
            for k, y in enumerate(x):
                vals["input[%d].%s" % (k, self.sf)] = J.share(y, ("in", k), i)
            vals.update({"state.id": i, "state.num_parties": N, "state.threshold": th, "ghost pairs": 0})
            return Env(seed=ref.seed, vals=vals, lens={"input": len(x)}, deflen=self.T, bools=honest, appfn=dict(APP, netid=lambda E, a: i))
        Joint.__init__(J, N, th, mkenv, ref.seed)
        return J
class TJ(Joint):
    shift = None
    def secret_rt(self, k):
        return Joint.secret_rt(self, k) + (1 if k == self.shift else 0)
def M02(cx):
    """a tree on shares yields a sharing of the plain root, with one mask for each value it opens"""
    deep = cx.tier == "thorough"
    for mode, shapes in (("sponge", ((3, 2), (4, 3), (4, 2))), ("compression", ((2, 2), (4, 3), (3, 3), (4, 2)))):
        for Tn, ar in shapes:
            S = Tree(cx, fn_of(cx, "merkle_tree_%s_shamir" % mode), Tn, ar)
            shared_root(cx, S, mode, Tn, ar, deep)
            if (Tn, ar) in ((3, 2), (4, 3), (2, 2)) or deep:
                shared_masks(cx, S, mode, Tn, ar)
def shared_root(cx, S, mode, Tn, ar, deep):
    rule = "%s, width %d, arity %d" % (mode, Tn, ar)
    def test():
        for N, th in ((3, 1), (5, 2)) if deep else ((3, 1),):
            ref = Ref(N, Tn, 5, 1, 1, 0)
            for n in [ar ** k for k in range(1, 5 if ar == 2 and deep else 3 if Tn == 4 and ar == 2 else 4 if ar == 2 else 2 + deep)]:
                x = [hnum("leaf", n, i) for i in range(n)]
                J = S.joint(N, th, ref, x)
                b = J.eval(lambda E: E.fails(S.r.ev))
                if any(b):
                    return "fails on %d leaves (%s; %s)" % (n, [z for z in b if z][0][2], rule)
                g = J.secret(lambda E: E.num(okval(E, E.ev(S.out)).f[0]), th)
                if J.why:
                    return J.why[0] + " (%s)" % rule
                if g is None:
                    return "the result is not a sharing of degree t (%d leaves, %s)" % (n, rule)
                if g != layers(ref, mode, ar, x)[-1][0]:
                    return "the result shares another value than the root of the tree over %d leaves (%s)" % (n, rule)
        for n in bad_sizes(ar):
            J = S.joint(3, 1, ref, [hnum("leaf", n, i) for i in range(n)])
            if not all(J.eval(lambda E: E.fails(S.r.ev))):
                return "takes %d leaves, which is no power of the arity (%s)" % (n, rule)
    cx.decide(S.f, "shares of the plain root, " + rule, test)
def shared_masks(cx, S, mode, Tn, ar):
    rule = "%s, width %d, arity %d" % (mode, Tn, ar)
    def test():
        ref = Ref(3, Tn, 5, 1, 1, 0)
        for n in (ar, ar * ar) if ar == 2 else (ar,):
            x = [hnum("leaf", n, i) for i in range(n)]
            base = S.opened(S.joint(3, 1, ref, x))
            total = S.consumed(S.joint(3, 1, ref, x))
            owner = {}
            for k in range(total):
                o = S.opened(S.joint(3, 1, ref, x, k))
                mv = [j for j, (u, v) in enumerate(zip(base, o)) if u != v]
                if not mv:
                    continue
                if (o[mv[0]] - base[mv[0]]) % PRIME != PRIME - 1:
                    return "opens something else than a value minus a mask (%s)" % rule
                if mv[0] in owner:
                    return "masks one opened value twice (%s)" % rule
                owner[mv[0]] = k
            if len(owner) != len(base):
                return "%d opened values, but only %d have a mask of their own, with %d leaves (%s)" % (len(base), len(owner), n, rule)
    cx.decide(S.f, "every opened value has a mask of its own, " + rule, test)
