"""Hash-consed terms in normal form: polynomials over atoms, canonical binders, gated values."""
import itertools

class T:
    __slots__ = ("op", "args", "uid", "fv", "lvl")
    def __repr__(self):
        return show(self)

_tab = {}
_uid = itertools.count()
EMPTY = frozenset()

def _scan(args, fv, lvl):
    for a in args:
        if type(a) is T:
            if a.fv:
                fv |= a.fv
            if a.lvl > lvl[0]:
                lvl[0] = a.lvl
        elif type(a) is tuple:
            _scan(a, fv, lvl)

def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.uid = op, args, next(_uid)
    fv, lvl = set(), [0]
    _scan(args, fv, lvl)
    if op in ("iv", "phi"):
        fv.add(t)
    t.fv = frozenset(fv) if fv else EMPTY
    t.lvl = max(lvl[0], args[1].lvl + 1) if op in BINDERS else lvl[0]
    _tab[k] = t
    return t

BINDERS = {"arr", "sum", "prod", "rec", "all", "flat", "first"}
# arr(len, body) sum(len, body) prod(len, body) rec(init, step[bv,acc], n) all(len, body) filt(seq, pred)

_fresh = itertools.count()
def fresh_iv():
    return mk("iv", next(_fresh))
def fresh_phi(tag=""):
    return mk("phi", next(_fresh), tag)

# ---------------------------------------------------------------- polynomials
def num(c):
    return mk("poly", () if c == 0 else (((), c),))
ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("agg", "()", 0, ())

def as_dict(t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "ite" and scalar(t):
        return as_dict(ite_poly(t))
    return {((t, 1),): 1}

def from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    return mk("poly", tuple(items))

def is_num(t):
    return t.op == "poly" and (len(t.args[0]) == 0 or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))
def val(t):
    return t.args[0][0][1] if t.args[0] else 0

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    pows = {}
    for x, e in itertools.chain(a, b):
        if x.op == "pow":
            base, ex = x.args
            pows[base] = add(pows.get(base, ZERO), scale(ex, e))
        else:
            d[x] = d.get(x, 0) + e
    for base, ex in pows.items():
        if base in d:
            ex = add(ex, num(d.pop(base)))
        if is_num(ex):
            v = val(ex)
            if v:
                d[base] = d.get(base, 0) + v
        else:
            p = mk("pow", base, ex)
            d[p] = d.get(p, 0) + 1
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == "ind":
            e = 1
        out.append((x, e))
    out.sort(key=lambda xe: xe[0].uid)
    return tuple(out)

def add(a, b):
    if a.op == "poly" and not a.args[0]:
        return b if b.op != "ite" else from_dict(as_dict(b))
    d = dict(as_dict(a))
    for m, c in as_dict(b).items():
        d[m] = d.get(m, 0) + c
    return from_dict(d)
def scale(a, k):
    return from_dict({m: c * k for m, c in as_dict(a).items()})
def neg(a):
    return scale(a, -1)
def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))
def mul(a, b):
    da, db = as_dict(a), as_dict(b)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_dict(d)
def inv(a):
    d = as_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c in (1, -1):
            out = []
            for x, e in m:
                if x.op == "pow":
                    out.append((mk("pow", x.args[0], neg(scale(x.args[1], e))), 1))
                elif x.op == "ind":
                    return mk("inv", a)
                else:
                    out.append((x, -e))
            out.sort(key=lambda xe: xe[0].uid)
            return from_dict({tuple(out): c})
    return mk("inv", from_dict(d))
def power(a, n):
    if is_num(n) and 0 <= val(n) <= 16:
        r = ONE
        for _ in range(val(n)):
            r = mul(r, a)
        return r
    d = as_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1:
            r = ONE
            for x, e in m:
                if x.op == "pow":
                    r = mul(r, mk("pow", x.args[0], mul(scale(x.args[1], e), n)))
                else:
                    r = mul(r, mk("pow", x, scale(n, e)) if not is_num(n) else from_dict({((x, e * val(n)),): 1}))
            return r
    return mk("pow", from_dict(d), n)
def idiv(a, b):
    if b is ONE:
        return a
    if is_num(a) and is_num(b) and val(b) > 0:
        return num(val(a) // val(b))
    if is_num(b) and val(b) > 0:
        d = as_dict(a)
        if all(c % val(b) == 0 for c in d.values()):
            return from_dict({m: c // val(b) for m, c in d.items()})
    q = mul(a, inv(b))
    # exact symbolic division (n*size)/size
    if b.op != "poly" and all(e > 0 for m in as_dict(q) for x, e in m) and all(any(x is b for x, _ in m) for m in as_dict(a)):
        return q
    return mk("idiv", a, b)
def irem(a, b):
    if is_num(a) and is_num(b) and val(b) > 0:
        return num(val(a) % val(b))
    # drop multiples of b
    d = as_dict(a)
    nb = {}
    for m, c in d.items():
        if b.op != "poly" and any(x is b and e >= 1 for x, e in m) and all(e >= 0 for _, e in m):
            continue
        nb[m] = c
    r = from_dict(nb)
    if r.op == "irem" and r.args[1] is b:
        return r
    return mk("irem", r, b)

# ---------------------------------------------------------------- booleans and gates
def ge0(p):
    """integer p >= 0"""
    if is_num(p):
        return TRUE if val(p) >= 0 else FALSE
    d = as_dict(p)
    if all(c > 0 for c in d.values()) and all(_nonneg(x) for m in d for x, e in m):
        return TRUE
    if all(c < 0 for c in d.values()) and d.get((), 0) < 0 and all(_nonneg(x) for m in d for x, e in m):
        return FALSE
    return mk("ge0", from_dict(d))
def _nonneg(x):
    return x.op in ("len", "min", "idiv", "irem", "ind", "mpow")
def lt(a, b):
    return ge0(sub(sub(b, a), ONE))
def le(a, b):
    return ge0(sub(b, a))
def eq0(p):
    if is_num(p):
        return TRUE if val(p) == 0 else FALSE
    d = as_dict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1:
            d = {m: 1}
    else:
        k = min(d, key=lambda m: tuple((a.uid, e) for a, e in m) if m else ())
        k = max(d, key=lambda m: tuple((a.uid, e) for a, e in m))
        if d[k] < 0:
            d = {m: -c for m, c in d.items()}
    if () in d and d[()] > 0 and all(c > 0 for c in d.values()) and all(_nonneg(x) for m in d for x, e in m):
        return FALSE
    return mk("eq0", from_dict(d))
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "bool":
        return b if a is TRUE else nt(b)
    if b.op == "bool":
        return a if b is TRUE else nt(a)
    if a.op in ("str", "agg", "fnv") or b.op in ("str", "agg", "fnv"):
        if a.op == b.op == "agg" and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]):
                r = conj(r, eq(x, y))
            return r
        if a.op == b.op == "str":
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.uid)
        return mk("eq", x, y)
    if a.op == "ite" and not scalar(a):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and not scalar(b):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    return eq0(sub(a, b))
def nt(c):
    if c.op == "bool":
        return FALSE if c.args[0] else TRUE
    if c.op == "ge0":
        return ge0(sub(neg(c.args[0]), ONE))
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return disj(*[nt(x) for x in c.args[0]])
    if c.op == "or":
        return conj(*[nt(x) for x in c.args[0]])
    if c.op == "ite":
        return ite(c.args[0], nt(c.args[1]), nt(c.args[2]))
    return mk("not", c)
def _ac(op, xs, unit, absorb):
    s = []
    for x in xs:
        if x.op == op:
            s.extend(x.args[0])
        elif x is unit:
            continue
        elif x is absorb:
            return absorb
        else:
            s.append(x)
    s = sorted(set(s), key=lambda t: t.uid)
    for x in s:
        if nt(x) in s:
            return absorb
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return mk(op, tuple(s))
def conj(*xs):
    return _ac("and", xs, TRUE, FALSE)
def disj(*xs):
    return _ac("or", xs, FALSE, TRUE)
def scalar(t):
    if t.op == "ite":
        return scalar(t.args[1]) and scalar(t.args[2])
    return t.op not in ("agg", "lit", "cat", "arr", "mref", "bool", "ge0", "eq0", "and", "or", "not", "str", "upd", "iter", "clo", "fnv", "unit", "updf", "eq", "all", "zmap", "bytes")
def ite_poly(t):
    c, a, b = t.args
    a, b = (ite_poly(x) if x.op == "ite" and scalar(x) else x for x in (a, b))
    d = sub(a, b)
    return add(b, mul(mk("ind", c), d))
def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return nt(c)
    if a is TRUE:
        return disj(c, b)
    if b is FALSE:
        return conj(c, a)
    if a is FALSE:
        return conj(nt(c), b)
    if b is TRUE:
        return disj(nt(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "ite" and a.args[0] is nt(c):
        a = a.args[2]
    if b.op == "ite" and b.args[0] is nt(c):
        b = b.args[1]
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ge0":
        n = nt(c)
        if n.op == "ge0" and n.uid < c.uid and False:
            return ite(n, b, a)
    # same-shaped aggregates merge field-wise
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        return mk("agg", a.args[0], a.args[1], tuple(ite(c, x, y) for x, y in zip(a.args[2], b.args[2])))
    if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
        return mk("iter", a.args[0], ite(c, a.args[1], b.args[1]))
    return mk("ite", c, a, b)

# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """Replace free atoms (iv, phi or any term in m) in t."""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    onlyfv = all(k.op in ("iv", "phi") for k in keys)
    def go(t):
        if t in m:
            return m[t]
        if onlyfv and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def deep(x, go):
    if type(x) is T:
        return go(x)
    if type(x) is tuple:
        return tuple(deep(y, go) for y in x)
    return x

def open_binder(t):
    """-> (iv, opened parts).  The binder's bound variable is ('bv', lvl)."""
    v = fresh_iv()
    L = t.args[1].lvl + 1
    b = mk("bv", L)
    if t.op == "rec":
        a = fresh_phi("acc")
        st = _replace(t.args[1], {b: v, mk("ba", L): a})
        return v, a, st
    return v, None, _replace(t.args[1], {b: v})

def _replace(t, m):
    memo = {}
    def go(t):
        if t in m:
            return m[t]
        if t.op in ("str", "bool", "iv", "phi", "sym", "bv", "ba"):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild_raw(t, go)
        return r
    return go(t)

def rebuild_raw(t, go):
    """Rebuild without opening binders (used only with bv -> fresh variable, or variable -> bv)."""
    if t.op in BINDERS:
        na = tuple(deep(x, go) for x in t.args)
        return t if na == t.args else mk(t.op, *na)
    return rebuild(t, go)

def rebuild(t, go):
    op, a = t.op, t.args
    if op == "poly":
        r = ZERO
        changed = False
        parts = []
        for m, c in a[0]:
            ms = []
            for x, e in m:
                y = go(x)
                if y is not x:
                    changed = True
                ms.append((y, e))
            parts.append((ms, c))
        if not changed:
            return t
        acc = {}
        for ms, c in parts:
            p = num(c)
            for y, e in ms:
                if e < 0:
                    q = power(inv(y), num(-e))
                else:
                    q = power(y, num(e))
                p = mul(p, q)
            for mm, cc in as_dict(p).items():
                acc[mm] = acc.get(mm, 0) + cc
        return from_dict(acc)
    if op in BINDERS:
        if op == "rec":
            v, acc, st = open_binder(t)
            return mk_rec(go(a[0]), v, acc, go(st), go(a[2]))
        v, _, body = open_binder(t)
        return mk_binder(op, go(a[0]), v, go(body))
    na = tuple(deep(x, go) for x in a)
    if na == a:
        return t
    f = CONS.get(op)
    return f(*na) if f else mk(op, *na)

def bind(v, body, acc=None):
    lvl = body.lvl + 1
    m = {v: mk("bv", lvl)}
    if acc is not None:
        m[acc] = mk("ba", lvl)
    return _replace(body, m)

def mk_binder(op, length, v, body):
    if op == "arr":
        return arr(length, v, body)
    if op == "sum":
        return summ(length, v, body)
    if op == "prod":
        if v not in body.fv:
            return power(body, length)
        return mk("prod", length, bind(v, body))
    if op == "all":
        return forall(length, v, body)
    if op == "first":
        return mk_first(length, v, body)
    return mk(op, length, bind(v, body))
def product(n, v, body):
    return mk_binder("prod", n, v, body)
def mk_first(n, v, body):
    """least v < n with body(v), else n"""
    if body is FALSE:
        return n
    if body is TRUE:
        return ZERO
    return mk("first", n, bind(v, body))

def forall(length, v, body):
    if body is TRUE:
        return TRUE
    if v not in body.fv and body is not FALSE:
        return mk("all", length, body) if not is_num(length) else body
    return mk("all", length, bind(v, body))

# ---------------------------------------------------------------- sequences
def lit(*xs):
    return mk("lit", tuple(xs))
def length(x):
    if x.op == "lit":
        return num(len(x.args[0]))
    if x.op == "arr":
        return x.args[0]
    if x.op == "cat":
        r = ZERO
        for s in x.args[0]:
            r = add(r, length(s))
        return r
    if x.op == "upd":
        return length(x.args[0])
    if x.op == "ite":
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == "iter":
        return sub(length(x.args[0]), x.args[1])
    if x.op == "str":
        return num(len(x.args[0]))
    if x.op == "flat":
        v, _, b = open_binder(x)
        return summ(x.args[0], v, length(b))
    return mk("len", x)
INF = mk("inf")
def mn(a, b):
    if a is b or b is INF:
        return a
    if a is INF:
        return b
    d = sub(a, b)
    if is_num(d):
        return a if val(d) <= 0 else b
    if ge0(neg(d)) is TRUE:
        return a
    if ge0(d) is TRUE:
        return b
    xs = []
    for y in (a, b):
        if y.op == "min":
            xs.extend(y.args[0])
        else:
            xs.append(y)
    xs = sorted(set(xs), key=lambda t: t.uid)
    return xs[0] if len(xs) == 1 else mk("min", tuple(xs))
def idx(x, i):
    if x.op == "lit" and is_num(i):
        k = val(i)
        if 0 <= k < len(x.args[0]):
            return x.args[0][k]
        r = idx_lit(x.args[0], i)
        return r if r is not None else mk("idx", x, i)
    if x.op == "lit" and x.args[0]:
        r = idx_lit(x.args[0], i)
        return r if r is not None else mk("idx", x, i)
    if x.op == "arr":
        b = mk("bv", x.args[1].lvl + 1)
        return subst_bv(x.args[1], b, i)
    if x.op == "cat":
        segs = x.args[0]
        off = i
        for k, s in enumerate(segs):
            l = length(s)
            inside = ge0(sub(sub(l, off), ONE))
            if inside is TRUE and ge0(off) is TRUE:
                return idx(s, off)
            past = ge0(sub(off, l))
            if past is TRUE:
                off = sub(off, l)
                continue
            # index = offset into a later segment plus a fresh loop variable
            break
        return mk("idx", x, i)
    if x.op == "upd":
        v, j, e = x.args
        d = sub(i, j)
        if d is ZERO:
            return e
        if is_num(d):
            return idx(v, i)
        return ite(eq(i, j), e, idx(v, i))
    if x.op == "ite":
        return ite(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if x.op == "iter":
        return idx(x.args[0], add(x.args[1], i))
    if x.op == "mref":
        return mk("mref", x.args[0], path_cat(x.args[1], (("i", i),)))
    return mk("idx", x, i)
def idx_lit(xs, i):
    """element at a symbolic index of records / of references to consecutive elements"""
    if is_num(i):
        return None
    x0 = xs[0]
    if x0.op == "agg" and all(x.op == "agg" and x.args[:2] == x0.args[:2] and len(x.args[2]) == len(x0.args[2]) for x in xs) and x0.args[2]:
        return agg(x0.args[0], x0.args[1], [idx(lit(*[x.args[2][k] for x in xs]), i) for k in range(len(x0.args[2]))])
    if x0.op == "mref" and x0.args[1] and x0.args[1][-1][0] == "i":
        c, p = x0.args[0], x0.args[1][:-1]
        base = x0.args[1][-1][1]
        if all(x.op == "mref" and x.args[0] == c and x.args[1][:-1] == p and x.args[1][-1] == ("i", add(base, num(k))) for k, x in enumerate(xs)):
            return mk("mref", c, p + (("i", add(base, i)),))
    if all(x is x0 for x in xs):
        return x0
    return None
def path_cat(p, q):
    p = list(p)
    for e in q:
        if p and p[-1][0] == "sl":
            lo, hi = p[-1][1], p[-1][2]
            if e[0] == "i":
                p[-1] = ("i", add(lo, e[1]))
                continue
            if e[0] == "sl":
                p[-1] = ("sl", add(lo, e[1]), add(lo, e[2]))
                continue
        p.append(e)
    return tuple(p)
def subst_bv(body, b, i):
    memo = {}
    def go(t):
        if t is b:
            return i
        if t.op in ("str", "bool", "iv", "phi", "sym", "bv", "ba"):
            return t
        r = memo.get(t)
        if r is None:
            if not has_bv(t, b):
                r = t
            elif t.op in BINDERS:
                r = rebuild(t, go)
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(body)
_hb = {}
def has_bv(t, b):
    k = (t, b)
    r = _hb.get(k)
    if r is None:
        r = t is b or _hb_args(t.args, b)
        _hb[k] = r
    return r
def _hb_args(a, b):
    for x in a:
        if type(x) is T:
            if has_bv(x, b):
                return True
        elif type(x) is tuple:
            if _hb_args(x, b):
                return True
    return False

def arr(n, v, body):
    if v in body.fv and _has_op(body, "ite"):
        up = ge0(sub(sub(n, ONE), v))
        m = {}
        if up.op == "ge0":
            m[up] = TRUE
        m[mk("ge0", v)] = TRUE
        body = subst(body, m)
    # lit for small constant lengths
    if is_num(n) and 0 <= val(n) <= 8:
        return lit(*[subst(body, {v: num(k)}) for k in range(val(n))])
    # eta: arr(len x, x[v]) = x
    if body.op == "idx" and body.args[1] is v and v not in body.args[0].fv and n is length(body.args[0]):
        return body.args[0]
    if body.op == "ite" and v not in body.args[0].fv:
        return ite(body.args[0], arr(n, v, body.args[1]), arr(n, v, body.args[2]))
    if body.op == "mref":
        c, p = body.args
        if p and p[-1][0] == "i" and p[-1][1] is v and not any(_hasv(e, v) for e in p[:-1]):
            return mk("arr", n, bind(v, body))
    return mk("arr", n, bind(v, body))
_ho = {}
def _has_op(x, op):
    k = (x, op)
    r = _ho.get(k)
    if r is None:
        r = _ho[k] = x.op == op or x.op == "ind" or _has_op_a(x.args, op)
    return r
def _has_op_a(a, op):
    for y in a:
        if type(y) is T:
            if _has_op(y, op):
                return True
        elif type(y) is tuple and _has_op_a(y, op):
            return True
    return False
def _hasv(e, v):
    return any(type(x) is T and v in x.fv for x in e)
def gen(n, f):
    v = fresh_iv()
    return arr(n, v, f(v))
def slc(x, lo, hi):
    if lo is ZERO and hi is length(x):
        return x
    if x.op == "lit" and is_num(lo) and is_num(hi):
        return lit(*x.args[0][val(lo):val(hi)])
    if x.op == "mref":
        return mk("mref", x.args[0], path_cat(x.args[1], (("sl", lo, hi),)))
    if x.op == "cat":
        # drop whole leading / trailing segments
        segs = list(x.args[0])
        total = length(x)
        while segs and ge0(sub(lo, length(segs[0]))) is TRUE:
            l = length(segs[0])
            lo, hi, total = sub(lo, l), sub(hi, l), sub(total, l)
            segs.pop(0)
        while segs and ge0(sub(sub(total, length(segs[-1])), hi)) is TRUE:
            total = sub(total, length(segs[-1]))
            segs.pop()
        y = cat(*segs)
        if lo is ZERO and hi is length(y):
            return y
        if y.op == "cat" and lo is not ZERO and is_num(lo) and y.args[0][0].op == "lit" and val(lo) < len(y.args[0][0].args[0]):
            y = cat(lit(*y.args[0][0].args[0][val(lo):]), *y.args[0][1:])
            hi = sub(hi, lo)
            if hi is length(y):
                return y
            lo = ZERO
        if y.op != "cat":
            return slc(y, lo, hi)
        x = y
    return gen(sub(hi, lo), lambda v: idx(x, add(lo, v)))
def cat(*xs):
    segs = []
    for x in xs:
        if x.op == "cat":
            parts = x.args[0]
        else:
            parts = (x,)
        for p in parts:
            if p.op == "lit" and not p.args[0]:
                continue
            if segs and segs[-1].op == "lit" and p.op == "lit":
                segs[-1] = lit(*(segs[-1].args[0] + p.args[0]))
            else:
                segs.append(p)
    if not segs:
        return lit()
    if len(segs) == 1:
        return segs[0]
    return mk("cat", tuple(segs))
def upd(x, i, e):
    if x.op == "lit" and is_num(i) and 0 <= val(i) < len(x.args[0]):
        l = list(x.args[0])
        l[val(i)] = e
        return lit(*l)
    if e.op == "idx" and e.args[0] is x and e.args[1] is i:
        return x
    if x.op == "upd" and x.args[1] is i:
        return upd(x.args[0], i, e)
    if x.op == "upd" and is_num(x.args[1]) and is_num(i) and val(i) < val(x.args[1]):
        return upd(upd(x.args[0], i, e), x.args[1], x.args[2])
    return mk("upd", x, i, e)

def mono_parts(t):
    return [(m, c) for m, c in as_dict(t).items()]
def _dir(t, v, acc):
    """sum of the signs of v in index-like positions of t"""
    if v not in t.fv:
        return
    if t.op in ("idx", "pow"):
        for m, c in as_dict(t.args[1]).items():
            if m == ((v, 1),):
                acc[0] += 1 if c > 0 else -1
    for a in t.args:
        _dir_any(a, v, acc)
def _dir_any(a, v, acc):
    if type(a) is T:
        _dir(a, v, acc)
    elif type(a) is tuple:
        for y in a:
            _dir_any(y, v, acc)
def summ(n, v, body):
    if is_num(n) and 0 <= val(n) <= 8:
        r = ZERO
        for k in range(val(n)):
            r = add(r, subst(body, {v: num(k)}))
        return r
    if body.op == "ite" and not scalar(body):
        return mk("sum", n, bind(v, body))
    acc = {}
    for m, c in as_dict(body).items():
        ins = tuple((x, e) for x, e in m if v in x.fv)
        out = tuple((x, e) for x, e in m if v not in x.fv)
        if not ins:
            p = mul(from_dict({out: c}), n)
        elif len(ins) == 1 and ins[0] == (v, 1):
            # sum of v = n(n-1)/2
            p = mul(from_dict({out: c}), mk("tri", n))
        else:
            t = from_dict({ins: 1})
            d = [0]
            _dir(t, v, d)
            if d[0] < 0:
                t = subst(t, {v: sub(sub(n, ONE), v)})
                td = as_dict(t)
                if len(td) != 1:
                    p = mul(from_dict({out: c}), summ(n, v, t))
                    for mm, cc in as_dict(p).items():
                        acc[mm] = acc.get(mm, 0) + cc
                    continue
                ins2 = tuple((x, e) for x, e in next(iter(td)) if v in x.fv)
                out2 = tuple((x, e) for x, e in next(iter(td)) if v not in x.fv)
                cc2 = next(iter(td.values()))
                out = mono_mul(out, out2)
                c = c * cc2
                t = from_dict({ins2: 1})
            p = mul(from_dict({out: c}), mk("sum", n, bind(v, t)))
        for mm, cc in as_dict(p).items():
            acc[mm] = acc.get(mm, 0) + cc
    return from_dict(acc)

def mk_rec(init, v, acc, step, n):
    if step is acc:
        return init
    return mk("rec", init, bind(v, step, acc), n)

# ---------------------------------------------------------------- aggregates
def agg(key, variant, fields):
    return mk("agg", key, variant, tuple(fields))
def field(x, i, name=None):
    if x.op == "agg":
        if i < len(x.args[2]):
            return x.args[2][i]
    if x.op == "ite":
        a, b = x.args[1], x.args[2]
        return ite(x.args[0], field(a, i, name), field(b, i, name))
    if x.op == "updf":
        if x.args[1] == i:
            return x.args[3]
        return field(x.args[0], i, name)
    if x.op == "mref":
        return mk("mref", x.args[0], path_cat(x.args[1], (("f", i, name),)))
    if x.op == "clo":
        return x.args[2][i]
    if i == 0 and x.op in SEQOPS and name is not None:
        return x        # the single field of a record that stands for its sequence (DensePolynomial and the like)
    return mk("fld", x, i, name)
SEQOPS = ("arr", "cat", "flat", "upd")
def setfield(x, i, name, v):
    if x.op == "agg" and i < len(x.args[2]):
        f = list(x.args[2])
        f[i] = v
        return agg(x.args[0], x.args[1], f)
    if x.op == "clo":
        f = list(x.args[2])
        f[i] = v
        return mk("clo", x.args[0], x.args[1], tuple(f))
    if x.op == "ite":
        return ite(x.args[0], setfield(x.args[1], i, name, v), setfield(x.args[2], i, name, v))
    if x.op == "updf" and x.args[1] == i:
        return setfield(x.args[0], i, name, v)
    if x.op == "updf" and x.args[1] > i:
        return mk("updf", setfield(x.args[0], i, name, v), x.args[1], x.args[2], x.args[3])
    if v.op == "fld" and v.args[0] is x and v.args[1] == i:
        return x
    if i == 0 and x.op in SEQOPS and name is not None:
        return v
    return mk("updf", x, i, name, v)
OPT, RES, CFLOW, ORD, POLL = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
                              "core::cmp::Ordering", "core::task::poll::Poll")
def some(x):
    return agg(OPT, 1, (x,))
NONE = agg(OPT, 0, ())
def ok(x):
    return agg(RES, 0, (x,))
def err(x):
    return agg(RES, 1, (x,))
def tup(*xs):
    return agg("()", 0, xs)
def variant_of(x, adt):
    """-> list of (cond, variant) covering x, or None if opaque"""
    if x.op == "agg":
        return x.args[1]
    return None
def downcast(x, v):
    if x.op == "ite":
        a, b = downcast(x.args[1], v), downcast(x.args[2], v)
        if a is None:
            return b
        if b is None:
            return a
        return ite(x.args[0], a, b)
    if x.op == "agg":
        return x if x.args[1] == v else None
    return mk("dc", x, v)
def opt_parts(x):
    """(is_some condition, value)"""
    if x.op == "agg" and x.args[0] == OPT:
        return (TRUE, x.args[2][0]) if x.args[1] == 1 else (FALSE, None)
    if x.op == "ite":
        c, a, b = x.args
        ca, va = opt_parts(a)
        cb, vb = opt_parts(b)
        v = va if vb is None else vb if va is None else ite(c, va, vb)
        return ite(c, ca, cb), v
    return mk("issome", x), mk("some", x)
def res_parts(x):
    """(is_ok condition, ok value, err value)"""
    if x.op == "agg" and x.args[0] == RES:
        return (TRUE, x.args[2][0], None) if x.args[1] == 0 else (FALSE, None, x.args[2][0])
    if x.op == "ite":
        c, a, b = x.args
        ca, va, ea = res_parts(a)
        cb, vb, eb = res_parts(b)
        v = va if vb is None else vb if va is None else ite(c, va, vb)
        e = ea if eb is None else eb if ea is None else ite(c, ea, eb)
        return ite(c, ca, cb), v, e
    return mk("isok", x), mk("okv", x), mk("errv", x)
def mk_res(c, v, e):
    if c is TRUE:
        return ok(v)
    if c is FALSE:
        return err(e)
    return ite(c, ok(v), err(e))
def mk_opt(c, v):
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return NONE
    return ite(c, some(v), NONE)

def xor(*xs):
    s = {}
    k = 0
    for x in xs:
        parts = x.args[0] if x.op == "xor" else (x,)
        for p in parts:
            if is_num(p):
                k ^= val(p)
            else:
                s[p] = s.get(p, 0) ^ 1
    l = sorted((p for p, e in s.items() if e), key=lambda t: t.uid)
    if k:
        l.append(num(k))
    if not l:
        return ZERO
    if len(l) == 1:
        return l[0]
    return mk("xor", tuple(l))
def bitand(a, b):
    if a is b:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    # distribute over xor
    for x, y in ((a, b), (b, a)):
        if x.op == "xor":
            return xor(*[bitand(p, y) for p in x.args[0]])
    l = []
    for x in (a, b):
        l.extend(x.args[0] if x.op == "band" else (x,))
    l = sorted(set(l), key=lambda t: t.uid)
    return mk("band", tuple(l))

CONS = {
    "ge0": ge0, "eq0": eq0, "not": nt, "ite": ite, "idx": idx, "len": length, "upd": upd, "fld": field,
    "updf": setfield, "inv": inv, "pow": power, "idiv": idiv, "irem": irem, "eq": eq,
    "and": lambda xs: conj(*xs), "or": lambda xs: disj(*xs), "min": lambda xs: _mns(xs), "cat": lambda xs: cat(*xs),
    "lit": lambda xs: lit(*xs), "xor": lambda xs: xor(*xs), "band": lambda xs: _bands(xs),
    "ind": lambda c: ONE if c is TRUE else ZERO if c is FALSE else mk("ind", c),
    "dc": lambda x, v: downcast(x, v) or mk("dcbad", x, v),
    "isok": lambda x: res_parts(x)[0], "okv": lambda x: res_parts(x)[1] or mk("bot"), "errv": lambda x: res_parts(x)[2] or mk("bot"),
    "issome": lambda x: opt_parts(x)[0], "some": lambda x: opt_parts(x)[1] or mk("bot"),
    "tri": lambda n: num(val(n) * (val(n) - 1) // 2) if is_num(n) else mk("tri", n),
}
def _mns(xs):
    r = xs[0]
    for y in xs[1:]:
        r = mn(r, y)
    return r
def _bands(xs):
    r = xs[0]
    for y in xs[1:]:
        r = bitand(r, y)
    return r

# ---------------------------------------------------------------- printing
def sym(name):
    return mk("sym", name)
def show(t, d=0):
    if d > 14:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1) if type(x) is T else (str(tuple(s(y) for y in x)) if type(x) is tuple else str(x))
    if o == "poly":
        out = []
        for m, c in a[0]:
            f = [s(x) + ("^%d" % e if e != 1 else "") for x, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append("*".join(f))
        return "(" + " + ".join(sorted(out)) + ")" if len(out) > 1 else out[0] if out else "0"
    if o == "sym":
        return a[0]
    if o == "bool":
        return str(a[0]).lower()
    if o == "str":
        return repr(a[0])
    if o == "bv":
        return "i%d" % a[0]
    if o == "ba":
        return "acc%d" % a[0]
    if o == "iv":
        return "v%d" % a[0]
    if o == "phi":
        return "phi%d" % a[0]
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "fld":
        return "%s.%s" % (s(a[0]), a[2] if a[2] is not None else a[1])
    if o == "lit":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if o == "cat":
        return " ++ ".join(s(x) for x in a[0])
    if o == "arr":
        return "[%s | i%d<%s]" % (s(a[1]), t.lvl, s(a[0]))
    if o == "sum":
        return "Σ(i%d<%s: %s)" % (t.lvl, s(a[0]), s(a[1]))
    if o == "ite":
        return "if(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "ge0":
        return s(a[0]) + ">=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "agg":
        nm = a[0].split("::")[-1]
        if a[0] == "()":
            return "(" + ", ".join(s(x) for x in a[2]) + ")"
        if a[0] == OPT:
            nm = ("None", "Some")[a[1]]
        elif a[0] == RES:
            nm = ("Ok", "Err")[a[1]]
        else:
            nm += "#%d" % a[1] if a[1] else ""
        return nm + "{" + ", ".join(s(x) for x in a[2]) + "}"
    if o == "mref":
        return "&mut%s%s" % (a[0], "".join("." + ".".join(s(y) for y in e) for e in a[1]))
    if o in ("and", "or", "xor", "band", "min"):
        return o + "(" + ", ".join(s(x) for x in a[0]) + ")"
    return o + "(" + ", ".join(s(x) for x in a) + ")"
