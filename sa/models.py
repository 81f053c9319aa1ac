"""Meaning of the standard library, arkworks, rayon, itertools, rand and eyre functions the code calls."""
from . import terms as t
from .terms import (mk, num, ZERO, ONE, TRUE, FALSE, UNIT, NONE, OPT, RES, CFLOW, add, sub, mul, neg, is_num, val, ite, eq, eq0, ge0, nt,
                    conj, disj, idx, length, lit, cat, upd, arr, gen, slc, field, setfield, agg, tup, some, ok, err, opt_parts, res_parts,
                    mk_opt, mk_res, subst, fresh_iv, fresh_phi, summ, power, inv, INF, mn)
from .interp import Unsupported, State, tystr, flat, rep, mapseq, splice, short

M = {}
def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d

RANGE, RANGEI, RANGEF, RANGET, RANGEFULL, RANGETI = ["core::ops::range::" + x for x in
    ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeFull", "RangeToInclusive")]

def V(it, st, x):
    return it.deref_all(st, x)

def seqof(it, st, v):
    if v.op == "mref":
        w = it.load(st, v)
        if w.op == "mref":
            return seqof(it, st, w)
        if w.op == "iter":
            it.store_to(st, v, mk("iter", w.args[0], length(w.args[0])))
            return slc0(w)
        return w
    if v.op == "iter":
        return slc0(v)
    if v.op == "agg":
        k = v.args[0]
        if k == RANGE:
            a, b = v.args[2][:2]
            return gen(sub(b, a), lambda i: add(a, i))
        if k == RANGEI:
            a, b = v.args[2][:2]
            return gen(add(sub(b, a), ONE), lambda i: add(a, i))
        if k == RANGEF:
            a = v.args[2][0]
            return gen(INF, lambda i: add(a, i))
        if k == OPT:
            return lit(v.args[2][0]) if v.args[1] == 1 else lit()
    if v.op == "ite" and v.args[1].op == "agg" and v.args[1].args[0] == OPT:
        c, x = opt_parts(v)
        return ite(c, lit(x), lit())
    if v.op == "ite":
        return ite(v.args[0], seqof(it, st, v.args[1]), seqof(it, st, v.args[2]))
    return v
def slc0(v):
    s, p = v.args
    return s if p is ZERO else slc(s, p, length(s))

def mrefseq(it, st, r):
    """sequence of references to the elements behind the mutable reference r"""
    n = length(V(it, st, r))
    if r.op == "ite":
        raise Unsupported("iter_mut over gated reference")
    return gen(n, lambda i: mk("mref", r.args[0], t.path_cat(r.args[1], (("i", i),))))

def fail(it, st, c, what, loc, detail=None):
    """record that execution stops here with condition c; False when it always does"""
    c = it.simp(c, st.facts)
    if c is FALSE:
        return True
    st.emit("fail", c, what, detail, (), loc)
    if c is TRUE:
        return False
    it.assume(st, nt(c))
    return True

# ------------------------------------------------------------------ identity-like
def ident(it, fr, st, a, args, loc):
    return args[0]
def identv(it, fr, st, a, args, loc):
    return V(it, st, args[0])
for n in ("Deref::deref", "Borrow::borrow", "AsRef::as_ref", "Vec::as_slice", "slice::as_ref", "array::as_slice", "hint::must_use",
          "Box::new", "Arc::new", "Rc::new", "Pin::new", "Option::as_ref", "Result::as_ref", "String::as_str", "str::as_bytes", "hint::black_box",
          "Vec::as_ref", "Option::as_deref", "String::as_bytes", "ManuallyDrop::new", "Vec::as_ptr", "Cow::into_owned", "Mutex::new", "RwLock::new",
          "Cell::new", "RefCell::new", "String::into_bytes", "Box::pin", "Some::as_ref"):
    M[n] = identv
for n in ("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "array::as_mut_slice", "Vec::as_mut_slice", "Vec::as_mut_ptr", "slice::as_mut_ptr",
          "Pin::new_unchecked", "Pin::get_unchecked_mut", "convert::identity", "Vec::leak", "Box::leak"):
    M[n] = ident
for n in ("ToOwned::to_owned", "Clone::clone", "slice::to_vec", "Vec::into_boxed_slice", "slice::into_vec", "Iterator::cloned", "Iterator::copied",
          "Option::cloned", "Option::copied", "AffineRepr::into_group", "CurveGroup::into_affine", "ParallelIterator::cloned", "ParallelIterator::copied",
          "CurveGroup::normalize_batch", "ScalarMul::batch_convert_to_mul_base", "str::to_string", "Box::into_inner", "Vec::into_iter_sorted", "into_affine", "Affine::into_group",
          "ToString::to_string", "str::trim", "Arc::clone", "slice::into_boxed_slice", 
          "IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len", "IntoBoxed::into", "Itertools::collect_vec",
          "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable", "Option::as_mut_x", "MaybeUninit::assume_init", "ManuallyDrop::into_inner"):
    M[n] = identv
M["Iterator::by_ref"] = ident
M["Itertools::collect_vec"] = lambda it, fr, st, a, args, loc: seqof(it, st, args[0])

@model("IntoIterator::into_iter", "slice::iter", "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "Vec::iter", "Option::iter",
       "Vec::into_iter", "array::iter")
def into_iter(it, fr, st, a, args, loc):
    x = args[0]
    if x.op == "mref":
        v = V(it, st, x)
        if v.op == "iter":
            return x
        if a and a[0][0] == "ref" and a[0][2]:
            return mk("iter", mrefseq(it, st, x), ZERO)
        x = v
    if x.op == "iter" or x.op == "lazyrep":
        return x
    return mk("iter", seqof(it, st, x), ZERO)

@model("slice::iter_mut", "IntoParallelRefMutIterator::par_iter_mut", "Vec::iter_mut", "array::iter_mut")
def iter_mut(it, fr, st, a, args, loc):
    x = args[0]
    if x.op != "mref":
        return mk("iter", x, ZERO)   # values behind shared references only
    return mk("iter", mrefseq(it, st, x), ZERO)

@model("Iterator::next")
def nxt(it, fr, st, a, args, loc):
    r = args[0]
    v = it.load(st, r)
    if v.op == "mref":
        return nxt(it, fr, st, a, [v], loc)
    if v.op == "agg" and v.args[0] in (RANGE, RANGEF):
        s = v.args[2][0]
        if v.args[0] == RANGEF:
            it.store_to(st, r, setfield(v, 0, "start", add(s, ONE)))
            return some(s)
        c = t.lt(s, v.args[2][1])
        it.store_to(st, r, setfield(v, 0, "start", add(s, ONE)))
        return mk_opt(c, s)
    if v.op == "phi" or v.op == "ite":
        raise Unsupported("iterator of unknown shape")
    if v.op == "lazyrep":
        x = it.call_val(fr, st, v.args[0], [], loc)
        return some(x) if x is not None else None
    if v.op != "iter":
        if v.op == "app" or v.op == "sym" or v.op == "fld":
            # opaque iterator: view as the sequence it yields
            v = mk("iter", v, ZERO)
        else:
            v = mk("iter", seqof(it, st, v), ZERO)
    s, p = v.args
    c = t.lt(p, length(s)) if length(s) is not INF else TRUE
    it.store_to(st, r, mk("iter", s, add(p, ONE)))
    c2 = it.simp(c, st.facts)
    return mk_opt(c2, idx(s, p))

@model("DoubleEndedIterator::next_back")
def nxt_back(it, fr, st, a, args, loc):
    r = args[0]
    v = it.load(st, r)
    s = seqof(it, st, v)
    n = length(s)
    it.store_to(st, r, mk("iter", slc(s, ZERO, sub(n, ONE)), ZERO))
    return mk_opt(t.lt(ZERO, n), idx(s, sub(n, ONE)))

def adaptor(f):
    def g(it, fr, st, a, args, loc):
        r = f(it, fr, st, a, args, loc)
        return r if r is None or r is NotImplemented else mk("iter", r, ZERO)
    return g
def amodel(*names):
    def d(f):
        g = adaptor(f)
        for n in names:
            M[n] = g
        return g
    return d

@amodel("Iterator::map", "ParallelIterator::map", "IndexedParallelIterator::map")
def imap(it, fr, st, a, args, loc):
    if args[0].op == "lazyrep":
        raise Unsupported("map over repeat_with")
    return it.map_seq(fr, st, seqof(it, st, args[0]), args[1], loc)

@amodel("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def enum(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    return gen(length(s), lambda i: tup(i, idx(s, i)))

def zlen(it, st, x, y, loc):
    a, b = length(x), length(y)
    if a is not b and a is not INF and b is not INF:
        st.emit("zip", a, b, loc)
        e = eq(a, b)
        if it.simp(e, st.facts) is TRUE:
            return a
    return mn(a, b)
@amodel("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def izip(it, fr, st, a, args, loc):
    x = seqof(it, st, args[0])
    y0 = args[1]
    y = y0
    if y.op == "mref" and V(it, st, y).op != "iter":
        y = mrefseq(it, st, y) if len(a) > 1 and a[1][0] == "ref" and a[1][2] else V(it, st, y)
    if y.op == "lazyrep":
        y = take_lazy(it, fr, st, y, length(x), loc)
    y = seqof(it, st, y)
    return gen(zlen(it, st, x, y, loc), lambda i: tup(idx(x, i), idx(y, i)))
@model("ziptuple::multizip", "itertools::multizip")
def multizip(it, fr, st, a, args, loc):
    v = args[0]
    if v.op != "agg":
        raise Unsupported("multizip of %s" % v.op)
    s = [seqof(it, st, x) for x in v.args[2]]
    n = length(s[0])
    for y in s[1:]:
        n = mn(n, zlen(it, st, s[0], y, loc))
    return gen(n, lambda i: tup(*[idx(x, i) for x in s]))

@amodel("IndexedParallelIterator::zip_eq", "Itertools::zip_eq", "itertools::zip_eq")
def izip_eq(it, fr, st, a, args, loc):
    x = seqof(it, st, args[0])
    y = args[1]
    if y.op == "mref" and V(it, st, y).op != "iter":
        y = mrefseq(it, st, y)
    y = seqof(it, st, y)
    if not fail(it, st, nt(eq(length(x), length(y))), "panic", loc, "zip_eq"):
        return None
    return gen(length(x), lambda i: tup(idx(x, i), idx(y, i)))

@amodel("Iterator::rev", "IndexedParallelIterator::rev")
def irev(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    return rev(s)
def rev(s):
    n = length(s)
    if s.op == "lit":
        return lit(*s.args[0][::-1])
    return gen(n, lambda i: idx(s, sub(sub(n, ONE), i)))

@amodel("Iterator::skip", "IndexedParallelIterator::skip")
def iskip(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    n = length(s)
    k = args[1]
    if n is INF:
        return gen(INF, lambda i: idx(s, add(i, k)))
    return slc(s, mn(k, n), n)

def take_lazy(it, fr, st, v, n, loc):
    f = v.args[0]
    iv, at, r = it.for_each(fr, st, n, lambda s, i: it.call_val(fr, s, f, [], loc))
    return arr(n, iv, subst(r, at))
@amodel("Iterator::take", "IndexedParallelIterator::take")
def itake(it, fr, st, a, args, loc):
    k = args[1]
    x = args[0]
    if x.op == "lazyrep":
        return take_lazy(it, fr, st, x, k, loc)
    if x.op == "mref":
        w = it.load(st, x)
        if w.op == "iter":
            s, p = w.args
            n = mn(k, sub(length(s), p)) if length(s) is not INF else k
            it.store_to(st, x, mk("iter", s, add(p, n)))
            return slc(s, p, add(p, n))
    s = seqof(it, st, x)
    n = length(s)
    m = mn(k, n)
    if n is INF:
        return gen(k, lambda i: idx(s, i))
    return slc(s, ZERO, m)

@amodel("Iterator::step_by", "IndexedParallelIterator::step_by")
def istep(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    k = args[1]
    n = length(s)
    return gen(t.idiv(add(n, sub(k, ONE)), k), lambda i: idx(s, mul(i, k)))

@amodel("Iterator::chain", "ParallelIterator::chain", "IndexedParallelIterator::chain")
def ichain(it, fr, st, a, args, loc):
    y = args[1]
    return cat(seqof(it, st, args[0]), seqof(it, st, y))

@amodel("Iterator::filter", "ParallelIterator::filter")
def ifilter(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    c = it.map_seq(fr, st, s, args[1], loc)
    if c is None:
        return None
    v = fresh_iv()
    return flat(length(s), v, ite(idx(c, v), lit(idx(s, v)), lit()))
@amodel("Iterator::filter_map", "ParallelIterator::filter_map")
def ifiltermap(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    m = it.map_seq(fr, st, s, args[1], loc)
    if m is None:
        return None
    v = fresh_iv()
    c, x = opt_parts(idx(m, v))
    return flat(length(s), v, ite(c, lit(x), lit()) if x is not None else lit())
@amodel("Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter")
def iflatmap(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    m = it.map_seq(fr, st, s, args[1], loc)
    if m is None:
        return None
    v = fresh_iv()
    return flat(length(s), v, seqof(it, st, idx(m, v)))
@amodel("Iterator::flatten", "ParallelIterator::flatten")
def iflatten(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    v = fresh_iv()
    return flat(length(s), v, seqof(it, st, idx(s, v)))
@model("slice::concat", "Concat::concat")
def sconcat(it, fr, st, a, args, loc):
    s = V(it, st, args[0])
    v = fresh_iv()
    return flat(length(s), v, idx(s, v))
@amodel("Iterator::take_while", "Iterator::skip_while", "Iterator::map_while", "Iterator::scan")
def iwhile(it, fr, st, a, args, loc):
    raise Unsupported("data-dependent iterator adaptor")
@model("iter::repeat_with", "repeat_with::repeat_with")
def irepeat_with(it, fr, st, a, args, loc):
    return mk("lazyrep", args[0])
@model("iter::repeat", "repeat::repeat")
def irepeat(it, fr, st, a, args, loc):
    return mk("iter", rep(INF, args[0]), ZERO)
@model("iter::repeat_n", "repeat_n::repeat_n")
def irepeatn(it, fr, st, a, args, loc):
    return mk("iter", rep(args[1], args[0]), ZERO)
@model("iter::once", "once::once")
def ionce(it, fr, st, a, args, loc):
    return mk("iter", lit(args[0]), ZERO)
@model("iter::empty", "empty::empty")
def iempty(it, fr, st, a, args, loc):
    return mk("iter", lit(), ZERO)
@model("array::from_fn", "array::core_array_from_fn")
def afrom_fn(it, fr, st, a, args, loc):
    n = None
    for x in a:
        if x[0] == "const" and str(x[1]).isdigit():
            n = num(int(x[1]))
    if n is None:
        n = t.sym("const N")
    return it.map_seq(fr, st, gen(n, lambda i: i), args[0], loc)
@model("array::map")
def amap(it, fr, st, a, args, loc):
    return it.map_seq(fr, st, V(it, st, args[0]), args[1], loc)

@model("Iterator::for_each", "ParallelIterator::for_each")
def ifor_each(it, fr, st, a, args, loc):
    r = it.map_seq(fr, st, seqof(it, st, args[0]), args[1], loc)
    return UNIT if r is not None else None
@model("Iterator::try_for_each", "ParallelIterator::try_for_each")
def itry_for_each(it, fr, st, a, args, loc):
    r = it.map_seq(fr, st, seqof(it, st, args[0]), args[1], loc)
    return ok(UNIT) if r is not None else None

def do_fold(it, fr, st, s, init, f, loc, order=1):
    n = length(s)
    cell = it.new_cell(st, init)
    if is_num(n) and 0 <= val(n) <= 8:
        x = init
        for k in range(val(n)):
            x = it.call_val(fr, st, f, [x, idx(s, num(k))], loc)
            if x is None:
                return None
        return x
    def body(s2, iv):
        r = it.call_val(fr, s2, f, [s2.store[cell], idx(s, iv)], loc)
        if r is None:
            return None
        s2.store[cell] = r
        return UNIT
    it.for_each(fr, st, n, body)
    return st.store.pop(cell)
@model("Iterator::fold", "ParallelIterator::fold_with")
def ifold(it, fr, st, a, args, loc):
    return do_fold(it, fr, st, seqof(it, st, args[0]), args[1], args[2], loc)
@model("DoubleEndedIterator::rfold")
def irfold(it, fr, st, a, args, loc):
    return do_fold(it, fr, st, rev(seqof(it, st, args[0])), args[1], args[2], loc)
@model("Iterator::try_fold")
def itry_fold(it, fr, st, a, args, loc):
    raise Unsupported("try_fold")
@model("ParallelIterator::reduce")
def preduce(it, fr, st, a, args, loc):
    z = it.call_val(fr, st, args[1], [], loc)
    return do_fold(it, fr, st, seqof(it, st, args[0]), z, args[2], loc)
@model("Iterator::reduce")
def ireduce(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    n = length(s)
    r = do_fold(it, fr, st, slc(s, ONE, n), idx(s, ZERO), args[1], loc)
    return mk_opt(t.lt(ZERO, n), r)

def is_local_adt(it, ty):
    return ty[0] == "adt" and it.p.adts.get(ty[1], {}).get("local")

def sum_like(it, fr, st, s, ty, loc, trait, unit, f, op):
    if ty is not None and is_local_adt(it, ty):
        # through the type's own Zero/Add
        z = call_trait(it, fr, st, "num_traits::identities::Zero" if op == "sum" else "num_traits::identities::One", "zero" if op == "sum" else "one", (ty,), [], loc)
        m = it.p.find_impl(trait, (ty, ty))
        if z is None or m is None:
            raise Unsupported("sum of %s" % tystr(ty))
        meth = m[0]["items"]["add" if op == "sum" else "mul"][1]
        g = m[1]
        cell = it.new_cell(st, z)
        def body(s2, iv):
            r = it.inline(s2, it.p.fns[meth], g, [s2.store[cell], idx(s, iv)], loc)
            s2.store[cell] = r
            return UNIT
        it.for_each(fr, st, length(s), body)
        return st.store.pop(cell)
    v = fresh_iv()
    return f(length(s), v, idx(s, v))
@model("Iterator::sum", "ParallelIterator::sum")
def isum(it, fr, st, a, args, loc):
    ty = a[1] if len(a) > 1 else None
    return sum_like(it, fr, st, seqof(it, st, args[0]), ty, loc, "core::ops::arith::Add", ZERO, summ, "sum")
@model("Iterator::product", "ParallelIterator::product")
def iprod(it, fr, st, a, args, loc):
    ty = a[1] if len(a) > 1 else None
    return sum_like(it, fr, st, seqof(it, st, args[0]), ty, loc, "core::ops::arith::Mul", ONE, t.product, "product")

def call_trait(it, fr, st, trait, name, targs, args, loc):
    m = it.p.find_impl(trait, targs)
    if m is None:
        return None
    im, g = m
    x = im["items"].get(name)
    if not x or x[0] != "it":
        return None
    f = it.p.fns.get(x[1])
    if f is None or not f.body:
        return None
    return it.inline(st, f, g, args, loc)

def coll(it, st, s, ty, loc):
    """collect sequence s into type ty"""
    if ty[0] == "adt":
        k = ty[1]
        if k.endswith("::Vec") or k.endswith("Box") or k.endswith("VecDeque"):
            return s
        if k == RES:
            v = fresh_iv()
            c, x, e = res_parts(idx(s, v))
            n = length(s)
            body = coll(it, st, arr(n, v, x if x is not None else UNIT), ty[2][0], loc)
            allok = t.forall(n, v, c)
            return mk_res(allok, body, mk("app", "firsterr", s))
        if k == OPT:
            v = fresh_iv()
            c, x = opt_parts(idx(s, v))
            n = length(s)
            return mk_opt(t.forall(n, v, c), coll(it, st, arr(n, v, x if x is not None else UNIT), ty[2][0], loc))
        return mk("app", "collect:" + k.split("::")[-1], s)
    if ty[0] == "tup" and len(ty[1]) > 1:
        n = length(s)
        return tup(*[coll(it, st, gen(n, lambda i, j=j: field(idx(s, i), j, None)), x, loc) for j, x in enumerate(ty[1])])
    return s
@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "FromParallelIterator::from_par_iter")
def icollect(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    ty = a[1] if len(a) > 1 else a[0]
    return coll(it, st, s, ty, loc)
@model("Itertools::try_collect")
def itrycollect(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    v = fresh_iv()
    c, x, e = res_parts(idx(s, v))
    return mk_res(t.forall(length(s), v, c), arr(length(s), v, x), mk("app", "firsterr", s))
@model("ParallelIterator::collect_into_vec", "IndexedParallelIterator::collect_into_vec")
def icollect_into(it, fr, st, a, args, loc):
    it.store_to(st, args[1], seqof(it, st, args[0]))
    return UNIT
@model("Iterator::unzip", "ParallelIterator::unzip", "IndexedParallelIterator::unzip_into_vecs", "Itertools::multiunzip")
def iunzip(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    n = length(s)
    k = 2
    x = idx(s, fresh_iv())
    if x.op == "agg":
        k = len(x.args[2])
    return tup(*[gen(n, lambda i, j=j: field(idx(s, i), j, None)) for j in range(k)])
@model("Iterator::any", "ParallelIterator::any")
def iany(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    c = it.map_seq(fr, st, s, args[1], loc)
    v = fresh_iv()
    return nt(t.forall(length(s), v, nt(idx(c, v))))
@model("Iterator::all", "ParallelIterator::all")
def iall(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    c = it.map_seq(fr, st, s, args[1], loc)
    v = fresh_iv()
    return t.forall(length(s), v, idx(c, v))
@model("Iterator::count", "ExactSizeIterator::len", "IndexedParallelIterator::len")
def icount(it, fr, st, a, args, loc):
    return length(seqof_nc(it, st, args[0]))
def seqof_nc(it, st, v):
    if v.op == "mref":
        v = V(it, st, v)
    return seqof(it, st, v)
@model("Iterator::last")
def ilast(it, fr, st, a, args, loc):
    s = seqof(it, st, args[0])
    return mk_opt(t.lt(ZERO, length(s)), idx(s, sub(length(s), ONE)))
@model("Iterator::nth")
def inth(it, fr, st, a, args, loc):
    s = seqof_nc(it, st, args[0])
    it.store_to(st, args[0], mk("iter", s, add(args[1], ONE)))
    return mk_opt(t.lt(args[1], length(s)), idx(s, args[1]))
@model("Iterator::position", "Iterator::find", "Iterator::find_map")
def ipos(it, fr, st, a, args, loc):
    s = seqof_nc(it, st, args[0])
    c = it.map_seq(fr, st, s, args[1], loc)
    v = fresh_iv()
    return mk("app", "find", s, c)

# ------------------------------------------------------------------ Vec / slices
@model("slice::len", "Vec::len", "str::len", "String::len", "array::len", "VecDeque::len")
def vlen(it, fr, st, a, args, loc):
    return length(V(it, st, args[0]))
@model("slice::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty")
def vempty(it, fr, st, a, args, loc):
    return eq0(length(V(it, st, args[0])))
@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity")
def vnew(it, fr, st, a, args, loc):
    return lit()
@model("vec::from_elem")
def vfrom_elem(it, fr, st, a, args, loc):
    return rep(args[1], args[0])
def mset(f):
    """model of a method that replaces the sequence behind args[0]"""
    def g(it, fr, st, a, args, loc):
        r = args[0]
        x = f(it, st, V1(it, st, r), *args[1:])
        it.store_to(st, final_ref(it, st, r), x)
        return UNIT
    return g
def V1(it, st, r):
    return V(it, st, r)
def final_ref(it, st, r):
    while True:
        v = it.load(st, r)
        if v.op == "mref":
            r = v
        else:
            return r
M["Vec::push"] = mset(lambda it, st, v, x: cat(v, lit(x)))
M["Vec::push_within_capacity"] = M["Vec::push"]
M["Vec::extend_from_slice"] = mset(lambda it, st, v, x: cat(v, V(it, st, x)))
M["Extend::extend"] = mset(lambda it, st, v, x: cat(v, seqof(it, st, x)))
M["Vec::clear"] = mset(lambda it, st, v: lit())
M["Vec::truncate"] = mset(lambda it, st, v, n: slc(v, ZERO, mn(n, length(v))))
M["slice::reverse"] = mset(lambda it, st, v: rev(v))
M["slice::fill"] = mset(lambda it, st, v, x: rep(length(v), x))
M["Vec::insert"] = mset(lambda it, st, v, i, x: cat(slc(v, ZERO, i), lit(x), slc(v, i, length(v))))
M["Vec::reserve"] = mset(lambda it, st, v, n: v)
M["Vec::reserve_exact"] = M["Vec::reserve"]
M["Vec::shrink_to_fit"] = mset(lambda it, st, v: v)
def _rotr(it, st, v, k):
    n = length(v)
    if v.op == "lit" and is_num(k):
        l, m = v.args[0], val(k)
        return lit(*(l[len(l) - m:] + l[:len(l) - m]))
    return cat(slc(v, sub(n, k), n), slc(v, ZERO, sub(n, k)))
M["slice::rotate_right"] = mset(_rotr)
M["slice::rotate_left"] = mset(lambda it, st, v, k: cat(slc(v, k, length(v)), slc(v, ZERO, k)))
def _resize(it, st, v, n, x):
    l = length(v)
    if l is ZERO:
        return rep(n, x)
    d = sub(n, l)
    g = ge0(d)
    if g is TRUE:
        return cat(v, rep(d, x))
    if g is FALSE:
        return slc(v, ZERO, n)
    return ite(g, cat(v, rep(d, x)), slc(v, ZERO, n))
M["Vec::resize"] = mset(_resize)
def _swap(it, st, v, i, j):
    a, b = idx(v, i), idx(v, j)
    return upd(upd(v, i, b), j, a)
M["slice::swap"] = mset(_swap)
@model("slice::clone_from_slice", "slice::copy_from_slice")
def sclone_from(it, fr, st, a, args, loc):
    src = V(it, st, args[1])
    d = V(it, st, args[0])
    if not fail(it, st, nt(eq(length(src), length(d))), "panic", loc, "copy_from_slice"):
        return None
    it.store_to(st, args[0], src)
    return UNIT
@model("Vec::pop")
def vpop(it, fr, st, a, args, loc):
    r = final_ref(it, st, args[0])
    v = it.load(st, r)
    n = length(v)
    c = it.simp(t.lt(ZERO, n), st.facts)
    last = idx(v, sub(n, ONE))
    if v.op == "lit":
        if not v.args[0]:
            return NONE
    it.store_to(st, r, slc(v, ZERO, sub(n, ONE)))
    return mk_opt(c, last)
@model("Vec::swap_remove")
def vswapremove(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    i = args[1]
    n = length(v)
    fail(it, st, ge0(sub(i, n)), "panic", loc, "bounds")
    it.store_to(st, args[0], slc(upd(v, i, idx(v, sub(n, ONE))), ZERO, sub(n, ONE)))
    return idx(v, i)
@model("Vec::remove")
def vremove(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    i = args[1]
    fail(it, st, ge0(sub(i, length(v))), "panic", loc, "bounds")
    it.store_to(st, args[0], cat(slc(v, ZERO, i), slc(v, add(i, ONE), length(v))))
    return idx(v, i)
def rng_bounds(it, st, x, r):
    n = length(x)
    if r.op == "agg":
        k, f = r.args[0], r.args[2]
        if k == RANGE:
            return f[0], f[1]
        if k == RANGEI:
            return f[0], add(f[1], ONE)
        if k == RANGEF:
            return f[0], n
        if k == RANGET:
            return ZERO, f[0]
        if k == RANGETI:
            return ZERO, add(f[0], ONE)
        if k == RANGEFULL:
            return ZERO, n
    return None
@model("Vec::drain")
def vdrain(it, fr, st, a, args, loc):
    r = final_ref(it, st, args[0])
    v = it.load(st, r)
    b = rng_bounds(it, st, v, args[1])
    if b is None:
        raise Unsupported("drain range")
    lo, hi = b
    n = length(v)
    if hi is not n and not fail(it, st, nt(ge0(sub(n, hi))), "panic", loc, "bounds"):
        return None
    it.store_to(st, r, cat(slc(v, ZERO, lo), slc(v, hi, n)))
    return mk("iter", slc(v, lo, hi), ZERO)
@model("Vec::split_off")
def vsplit_off(it, fr, st, a, args, loc):
    r = final_ref(it, st, args[0])
    v = it.load(st, r)
    n, k = length(v), args[1]
    if not fail(it, st, nt(ge0(sub(n, k))), "panic", loc, "bounds"):
        return None
    it.store_to(st, r, slc(v, ZERO, k))
    return slc(v, k, n)
@model("Vec::append")
def vappend(it, fr, st, a, args, loc):
    x, y = V(it, st, args[0]), V(it, st, args[1])
    it.store_to(st, args[0], cat(x, y))
    it.store_to(st, args[1], lit())
    return UNIT

def seq_ty(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty[0] in ("slice", "arr") or (ty[0] == "adt" and ty[1].split("::")[-1] in ("Vec", "Box", "VecDeque")) or ty == ("p", "str") or (ty[0] == "adt" and ty[1].endswith("String"))
def do_index(it, fr, st, a, args, loc, mut):
    x, i = args
    if not seq_ty(a[0]):
        i = V(it, st, i)
        v = V(it, st, x)
        if mut:
            raise Unsupported("IndexMut on %s" % tystr(a[0]))
        return mk("app", "index", v, i)
    v = V(it, st, x)
    n = length(v)
    b = rng_bounds(it, st, v, i)
    if b:
        lo, hi = b
        if hi is not n and not fail(it, st, nt(ge0(sub(n, hi))), "panic", loc, "bounds"):
            return None
        if lo is not ZERO and not fail(it, st, nt(ge0(sub(hi, lo))), "panic", loc, "bounds"):
            return None
        if mut:
            return map_path(it, st, x, ("sl", lo, hi))
        return slc(v, lo, hi)
    if i.op == "agg":
        raise Unsupported("index by %s" % i.args[0])
    if n is not INF and not fail(it, st, ge0(sub(i, n)), "panic", loc, "bounds"):
        return None
    if mut:
        return map_path(it, st, x, ("i", i))
    return idx(v, i)
def map_path(it, st, r, e):
    if r.op == "ite":
        return ite(r.args[0], map_path(it, st, r.args[1], e), map_path(it, st, r.args[2], e))
    r = final_ref(it, st, r)
    return mk("mref", r.args[0], t.path_cat(r.args[1], (e,)))
@model("Index::index", "SliceIndex::index")
def index(it, fr, st, a, args, loc):
    return do_index(it, fr, st, a, args, loc, False)
@model("IndexMut::index_mut")
def index_mut(it, fr, st, a, args, loc):
    if args[0].op != "mref" and args[0].op != "ite":
        return do_index(it, fr, st, a, args, loc, False)
    return do_index(it, fr, st, a, args, loc, True)
@model("slice::get", "Vec::get")
def sget(it, fr, st, a, args, loc):
    v, i = V(it, st, args[0]), args[1]
    b = rng_bounds(it, st, v, i)
    if b:
        return mk_opt(conj(ge0(sub(length(v), b[1])), ge0(sub(b[1], b[0]))), slc(v, *b))
    return mk_opt(it.simp(t.lt(i, length(v)), st.facts), idx(v, i))
@model("slice::get_mut")
def sgetm(it, fr, st, a, args, loc):
    v, i = V(it, st, args[0]), args[1]
    return mk_opt(it.simp(t.lt(i, length(v)), st.facts), map_path(it, st, args[0], ("i", i)))
@model("slice::first")
def sfirst(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    return mk_opt(t.lt(ZERO, length(v)), idx(v, ZERO))
@model("slice::last")
def slast(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    return mk_opt(t.lt(ZERO, length(v)), idx(v, sub(length(v), ONE)))
@model("slice::last_mut")
def slastm(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    return mk_opt(t.lt(ZERO, length(v)), map_path(it, st, args[0], ("i", sub(length(v), ONE))))
@model("slice::split_at", "slice::split_at_checked")
def ssplit(it, fr, st, a, args, loc):
    v, k = V(it, st, args[0]), args[1]
    if not fail(it, st, nt(ge0(sub(length(v), k))), "panic", loc, "bounds"):
        return None
    return tup(slc(v, ZERO, k), slc(v, k, length(v)))
@model("slice::split_at_mut")
def ssplitm(it, fr, st, a, args, loc):
    v, k = V(it, st, args[0]), args[1]
    if not fail(it, st, nt(ge0(sub(length(v), k))), "panic", loc, "bounds"):
        return None
    return tup(map_path(it, st, args[0], ("sl", ZERO, k)), map_path(it, st, args[0], ("sl", k, length(v))))
def chunk(exact, mut):
    def f(it, fr, st, a, args, loc):
        x, k = args[0], args[1]
        v = V(it, st, x)
        n = length(v)
        if exact:
            m = t.idiv(n, k)
            hi = lambda i: mul(add(i, ONE), k)
        else:
            m = t.idiv(add(n, sub(k, ONE)), k)
            hi = lambda i: mn(mul(add(i, ONE), k), n) if not is_exact(n, k) else mul(add(i, ONE), k)
        if mut:
            return mk("iter", gen(m, lambda i: map_path(it, st, x, ("sl", mul(i, k), hi(i)))), ZERO)
        return mk("iter", gen(m, lambda i: slc(v, mul(i, k), hi(i))), ZERO)
    return f
def is_exact(n, k):
    return t.irem(n, k) is ZERO
for nm, e, mu in (("chunks", 0, 0), ("chunks_exact", 1, 0), ("chunks_mut", 0, 1), ("chunks_exact_mut", 1, 1)):
    M["slice::" + nm] = M["Vec::" + nm] = M["array::" + nm] = chunk(e, mu)
    M["ParallelSlice::par_" + nm] = M["ParallelSliceMut::par_" + nm] = chunk(e, mu)
@model("slice::windows")
def swin(it, fr, st, a, args, loc):
    v, k = V(it, st, args[0]), args[1]
    return mk("iter", gen(add(sub(length(v), k), ONE), lambda i: slc(v, i, add(i, k))), ZERO)
@model("slice::contains")
def scontains(it, fr, st, a, args, loc):
    v, x = V(it, st, args[0]), V(it, st, args[1])
    w = fresh_iv()
    return nt(t.forall(length(v), w, nt(eq(idx(v, w), x))))
@model("Vec::from_raw_parts", "slice::from_raw_parts", "raw::from_raw_parts")
def vraw(it, fr, st, a, args, loc):
    # (pointer made from a sequence, its own length[, capacity]) with a change of the element type
    v = V(it, st, args[0])
    if v.op in ("app",) and v.args[0] == "ptrcast":
        pass
    return v
@model("slice::from_raw_parts_mut", "raw::from_raw_parts_mut")
def vrawm(it, fr, st, a, args, loc):
    return args[0]
@model("ptr::cast", "const_ptr::cast", "mut_ptr::cast")
def pcast(it, fr, st, a, args, loc):
    return args[0]
@model("Vec::capacity")
def vcap(it, fr, st, a, args, loc):
    return mk("app", "capacity", V(it, st, args[0]))
@model("intrinsics::transmute", "mem::transmute")
def transm(it, fr, st, a, args, loc):
    x = args[0]
    f = it.conv(a[0], a[1])
    if x.op == "mref":
        if f is None:
            raise Unsupported("transmute of &mut %s" % tystr(a[0]))
        return view_ref(it, st, x, a[0], a[1])
    if f is None:
        return mk("app", "transmute", x)
    return f(x)
def view_ref(it, st, x, ta, tb):
    """a &mut [W<F>] seen as &mut [F]"""
    raise Unsupported("transmuted mutable view")

# ------------------------------------------------------------------ Option / Result
@model("Try::branch")
def branch(it, fr, st, a, args, loc):
    x = args[0]
    if a[0][0] == "adt" and a[0][1] == OPT:
        c, v = opt_parts(x)
        c = it.simp(c, st.facts)
        return ite(c, agg(CFLOW, 0, (v if v is not None else UNIT,)), agg(CFLOW, 1, (NONE,)))
    c, v, e = res_parts(x)
    c = it.simp(c, st.facts)
    return ite(c, agg(CFLOW, 0, (v if v is not None else UNIT,)), agg(CFLOW, 1, (err(e if e is not None else UNIT),)))
@model("FromResidual::from_residual")
def residual(it, fr, st, a, args, loc):
    x = args[0]
    if a[0][0] == "adt" and a[0][1] == RES and a[1][0] == "adt" and a[1][1] == OPT:
        return NONE
    return x
@model("Result::unwrap", "Result::expect", "Option::unwrap", "Option::expect")
def unwrap(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    is_res = is_result(x, a)
    if is_res:
        c, v, e = res_parts(x)
    else:
        c, v = opt_parts(x)
    c = it.simp(c, st.facts)
    if c is not TRUE:
        if not fail(it, st, nt(c), "panic", loc, "unwrap"):
            return None
    return v
def is_result(x, a):
    y = x
    while y.op == "ite":
        y = y.args[1]
    if y.op == "agg":
        return y.args[0] == RES
    return len([z for z in a if z[0] != "'"]) == 2
def okfn(f):
    def g(it, fr, st, a, args, loc):
        return f(it, fr, st, V(it, st, args[0]), args[1:], loc)
    return g
M["Option::is_some"] = okfn(lambda it, fr, st, x, r, loc: opt_parts(x)[0])
M["Option::is_none"] = okfn(lambda it, fr, st, x, r, loc: nt(opt_parts(x)[0]))
M["Result::is_ok"] = okfn(lambda it, fr, st, x, r, loc: res_parts(x)[0])
M["Result::is_err"] = okfn(lambda it, fr, st, x, r, loc: nt(res_parts(x)[0]))
def _ok(it, fr, st, x, r, loc):
    c, v, e = res_parts(x)
    return mk_opt(c, v)
M["Result::ok"] = okfn(_ok)
def _errm(it, fr, st, x, r, loc):
    c, v, e = res_parts(x)
    return mk_opt(nt(c), e)
M["Result::err"] = okfn(_errm)
def _ok_or(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    return mk_res(c, v, mk("app", "err"))
M["Option::ok_or"] = M["Option::ok_or_else"] = okfn(_ok_or)
M["ContextCompat::context"] = M["ContextCompat::with_context"] = M["OptionExt::ok_or_eyre"] = M["ContextCompat::wrap_err"] = okfn(_ok_or)
def _keep_res(it, fr, st, x, r, loc):
    if x.op == "agg" and x.args[0] == OPT or (x.op == "ite" and x.args[1].op == "agg" and x.args[1].args[0] == OPT):
        return _ok_or(it, fr, st, x, r, loc)
    c, v, e = res_parts(x)
    return mk_res(c, v, mk("app", "err"))
M["WrapErr::context"] = M["WrapErr::wrap_err"] = M["WrapErr::with_context"] = M["WrapErr::wrap_err_with"] = M["Result::map_err"] = okfn(_keep_res)
def guarded(it, fr, st, c, f):
    """run f under condition c, merging its effects"""
    c = it.simp(c, st.facts)
    if c is TRUE:
        return f(st)
    if c is FALSE:
        return t.mk("bot")
    s1, s2 = State(dict(st.store), (), st.facts), State(dict(st.store), (), st.facts)
    it.assume(s1, c)
    r = f(s1)
    if r is None:
        st.emit("fail", c, "panic", "closure", s1.ev, None)
        it.assume(st, nt(c))
        return mk("bot")
    m = it.merge(c, s1, nt(c), s2)
    st.store, st.ev = m.store, st.ev + m.ev
    return r
def _omap(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    if c is FALSE:
        return NONE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    return mk_opt(c, y)
M["Option::map"] = okfn(_omap)
def _rmap(it, fr, st, x, r, loc):
    c, v, e = res_parts(x)
    if c is FALSE:
        return x
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    return mk_res(c, y, e)
M["Result::map"] = okfn(_rmap)
def _oand(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    if c is FALSE:
        return NONE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    c2, v2 = opt_parts(y)
    return mk_opt(conj(c, c2), v2)
M["Option::and_then"] = okfn(_oand)
def _rand(it, fr, st, x, r, loc):
    c, v, e = res_parts(x)
    if c is FALSE:
        return x
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    c2, v2, e2 = res_parts(y)
    return mk_res(conj(c, c2), v2, mk("app", "err"))
M["Result::and_then"] = okfn(_rand)
def parts(x):
    y = x
    while y.op == "ite":
        y = y.args[1]
    if y.op == "agg" and y.args[0] == RES:
        return res_parts(x)[:2]
    return opt_parts(x)
def _unwrap_or(it, fr, st, x, r, loc):
    c, v = parts(x)
    return ite(c, v, r[0]) if v is not None else r[0]
M["Option::unwrap_or"] = M["Result::unwrap_or"] = okfn(_unwrap_or)
def _unwrap_or_else(it, fr, st, x, r, loc):
    c, v = parts(x)
    if c is TRUE:
        return v
    y = guarded(it, fr, st, nt(c), lambda s: it.call_val(fr, s, r[0], [] if not is_result(x, ()) else [mk("app", "err")], loc))
    return ite(c, v, y) if v is not None and y.op != "bot" else (v if v is not None else y)
M["Option::unwrap_or_else"] = M["Result::unwrap_or_else"] = okfn(_unwrap_or_else)
def _map_or(it, fr, st, x, r, loc):
    c, v = parts(x)
    if c is FALSE:
        return r[0]
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[1], [v], loc))
    return ite(c, y, r[0])
M["Option::map_or"] = M["Result::map_or"] = okfn(_map_or)
def _is_some_and(it, fr, st, x, r, loc):
    c, v = parts(x)
    if c is FALSE:
        return FALSE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    return conj(c, y)
M["Option::is_some_and"] = M["Result::is_ok_and"] = okfn(_is_some_and)
@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def uod(it, fr, st, a, args, loc):
    c, v = parts(V(it, st, args[0]))
    d = default_of(it, fr, st, a[0], loc)
    return ite(c, v, d) if v is not None else d
@model("Option::take")
def otake(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    it.store_to(st, args[0], NONE)
    return v
@model("Option::as_mut")
def oasmut(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    c, _ = opt_parts(v)
    if args[0].op != "mref":
        return v
    r = final_ref(it, st, args[0])
    return mk_opt(c, mk("mref", r.args[0], r.args[1] + (("dc", 1, OPT), ("f", 0, "0"))))
@model("eyre::Ok", "eyre::private::Ok")
def eok(it, fr, st, a, args, loc):
    return ok(args[0])
def report(it, fr, st, a, args, loc):
    return mk("app", "report")
for n in ("private::format_err", "private::new_adhoc", "Report::msg", "Report::new", "kind::new_adhoc", "Adhoc::new", "Report::from_display", "error::eyre_kind", "TraitKind::eyre_kind",
          "AdhocKind::eyre_kind", "Trait::new", "Report::from"):
    M[n] = report
def strv(it, fr, st, a, args, loc):
    return mk("app", "fmt")
for n in ("fmt::format", "Arguments::new", "Arguments::from_str", "Arguments::new_v1", "Argument::new_display", "Argument::new_debug", "Arguments::new_const",
          "Arguments::new_v1_formatted", "rt::new_display", "Argument::new_lower_hex", "Argument::from_usize"):
    M[n] = strv

# ------------------------------------------------------------------ mem
@model("mem::swap")
def mswap(it, fr, st, a, args, loc):
    x, y = it.load(st, args[0]), it.load(st, args[1])
    it.store_to(st, args[0], y)
    it.store_to(st, args[1], x)
    return UNIT
@model("mem::replace")
def mreplace(it, fr, st, a, args, loc):
    x = it.load(st, args[0])
    it.store_to(st, args[0], args[1])
    return x
@model("mem::take")
def mtake(it, fr, st, a, args, loc):
    x = it.load(st, args[0])
    it.store_to(st, args[0], default_of(it, fr, st, a[0], loc))
    return x
@model("mem::drop", "mem::forget", "ops::drop")
def mdrop(it, fr, st, a, args, loc):
    return UNIT
def default_of(it, fr, st, ty, loc):
    if ty[0] == "p":
        return FALSE if ty[1] == "bool" else ZERO
    if ty[0] == "param" or ty[0] == "proj":
        return ZERO
    if ty[0] == "adt":
        n = ty[1].split("::")[-1]
        if n in ("Vec", "String", "VecDeque"):
            return lit()
        if ty[1] == OPT:
            return NONE
        r = call_trait(it, fr, st, "core::default::Default", "default", (ty,), [], loc)
        if r is not None:
            return r
        if n in ("PhantomData",):
            return UNIT
        return mk("app", "default:" + tystr(ty))
    if ty[0] == "tup":
        return tup(*[default_of(it, fr, st, x, loc) for x in ty[1]])
    if ty[0] == "arr":
        n = num(int(ty[2])) if str(ty[2]).isdigit() else t.sym("const N")
        return rep(n, default_of(it, fr, st, ty[1], loc))
    return mk("app", "default:" + tystr(ty))
@model("Default::default")
def default(it, fr, st, a, args, loc):
    return default_of(it, fr, st, a[0], loc)

# ------------------------------------------------------------------ arithmetic
def numeric(it, ty):
    while ty[0] == "ref":
        ty = ty[1]
    return not (is_local_adt(it, ty)) and not (ty[0] == "adt" and ty[1].split("::")[-1] in ("Instant", "Duration", "String", "HashSet", "BTreeSet"))
def arith(f):
    def g(it, fr, st, a, args, loc):
        x, y = V(it, st, args[0]), V(it, st, args[1])
        if not numeric(it, a[0]):
            return NotImplemented
        return f(x, y)
    return g
def arith_as(f):
    def g(it, fr, st, a, args, loc):
        if not numeric(it, a[0]):
            return NotImplemented
        x, y = V(it, st, args[0]), V(it, st, args[1])
        it.store_to(st, final_ref(it, st, args[0]), f(x, y))
        return UNIT
    return g
def _div(x, y):
    return mul(x, inv(y))
def _mul(x, y):
    return mul(x, y)
for nm, f in (("Add::add", add), ("Sub::sub", sub), ("Mul::mul", _mul), ("Div::div", None), ("Rem::rem", t.irem)):
    if f:
        M[nm] = arith(f)
        M[nm.split("::")[0] + "Assign::" + nm.split("::")[1] + "_assign"] = arith_as(f)
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize"}
@model("Div::div")
def mdiv(it, fr, st, a, args, loc):
    x, y = V(it, st, args[0]), V(it, st, args[1])
    ty = a[0]
    while ty[0] == "ref":
        ty = ty[1]
    if ty[0] == "p" and ty[1] in INTS or (ty[0] == "adt" and "BigUint" in ty[1]):
        return t.idiv(x, y)
    return _div(x, y)
@model("DivAssign::div_assign")
def mdiva(it, fr, st, a, args, loc):
    it.store_to(st, args[0], mdiv(it, fr, st, a, args, loc))
    return UNIT
@model("Neg::neg")
def mneg(it, fr, st, a, args, loc):
    if not numeric(it, a[0]):
        return NotImplemented
    return neg(V(it, st, args[0]))
@model("Not::not")
def mnot(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    return nt(x) if a[0] == ("p", "bool") else mk("app", "bitnot", x)
M["BitXor::bitxor"] = arith(t.xor)
M["BitXorAssign::bitxor_assign"] = arith_as(t.xor)
M["BitAnd::bitand"] = arith(t.bitand)
M["BitAndAssign::bitand_assign"] = arith_as(t.bitand)
M["BitOr::bitor"] = arith(lambda x, y: mk("app", "bitor", *sorted((x, y), key=lambda z: z.uid)))
M["BitOrAssign::bitor_assign"] = arith_as(lambda x, y: mk("app", "bitor", *sorted((x, y), key=lambda z: z.uid)))
M["Shr::shr"] = arith(lambda x, y: t.idiv(x, power(num(2), y)))
M["Shl::shl"] = arith(lambda x, y: mul(x, power(num(2), y)))
M["ShrAssign::shr_assign"] = arith_as(lambda x, y: t.idiv(x, power(num(2), y)))
M["ShlAssign::shl_assign"] = arith_as(lambda x, y: mul(x, power(num(2), y)))
@model("Zero::zero", "AdditiveGroup::zero", "const:AdditiveGroup::ZERO")
def zero(it, fr, st, a, args=None, loc=None):
    return ZERO
@model("One::one", "const:Field::ONE")
def one(it, fr, st, a, args=None, loc=None):
    return ONE
M["const:AdditiveGroup::ZERO"] = lambda it, fr, st, a: ZERO
M["const:Field::ONE"] = lambda it, fr, st, a: ONE
@model("Zero::is_zero")
def is_zero(it, fr, st, a, args, loc):
    return eq0p(V(it, st, args[0]))
def eq0p(x):
    return eq0(x)
@model("One::is_one")
def is_one(it, fr, st, a, args, loc):
    return eq0(sub(V(it, st, args[0]), ONE))
@model("Zero::set_zero")
def set_zero(it, fr, st, a, args, loc):
    it.store_to(st, args[0], ZERO)
    return UNIT
@model("Field::inverse")
def finverse(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    return mk_opt(it.simp(nt(eq0(x)), st.facts), inv(x))
@model("Field::inverse_in_place")
def finversei(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    it.store_to(st, args[0], inv(x))
    return mk_opt(nt(eq0(x)), args[0])
@model("fields::batch_inversion", "ark_ff::batch_inversion")
def batch_inv(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    it.store_to(st, args[0], gen(length(v), lambda i: inv(idx(v, i))))
    return UNIT
@model("fields::batch_inversion_and_mul")
def batch_inv_mul(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    c = V(it, st, args[1])
    it.store_to(st, args[0], gen(length(v), lambda i: mul(c, inv(idx(v, i)))))
    return UNIT
@model("Field::square", "usize::square")
def fsquare(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    return mul(x, x)
def inplace(f):
    def g(it, fr, st, a, args, loc):
        it.store_to(st, final_ref(it, st, args[0]), f(V(it, st, args[0])))
        return args[0]
    return g
M["Field::square_in_place"] = inplace(lambda x: mul(x, x))
M["AdditiveGroup::double_in_place"] = inplace(lambda x: add(x, x))
M["AdditiveGroup::neg_in_place"] = inplace(lambda x: neg(x))
@model("AdditiveGroup::double")
def fdouble(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    return add(x, x)
@model("Field::pow")
def fpow(it, fr, st, a, args, loc):
    x, e = V(it, st, args[0]), V(it, st, args[1])
    if e.op == "lit" and len(e.args[0]) == 1:
        return power(x, e.args[0][0])
    return mk("app", "powbig", x, e)
@model("num::pow", "Pow::pow", "BigUint::pow")
def npow(it, fr, st, a, args, loc):
    return power(args[0], args[1])
@model("num::div_ceil")
def ndivceil(it, fr, st, a, args, loc):
    return t.idiv(add(args[0], sub(args[1], ONE)), args[1])
@model("num::is_multiple_of")
def nmult(it, fr, st, a, args, loc):
    return eq0(t.irem(args[0], args[1]))
@model("num::is_power_of_two", "num::next_power_of_two", "num::ilog2", "num::ilog", "num::trailing_zeros", "num::leading_zeros", "num::count_ones", "num::abs_diff",
       "num::reverse_bits", "num::swap_bytes")
def napp(it, fr, st, a, args, loc):
    raise Unsupported("napp")
for n in ("is_power_of_two", "next_power_of_two", "ilog2", "ilog", "trailing_zeros", "leading_zeros", "count_ones", "abs_diff", "reverse_bits", "swap_bytes"):
    def _f(it, fr, st, a, args, loc, n=n):
        return mk("app", n, *[V(it, st, x) for x in args])
    M["num::" + n] = _f
def mx(a, b):
    return sub(add(a, b), mn(a, b))
@model("cmp::min", "Ord::min", "num::min")
def cmin(it, fr, st, a, args, loc):
    return mn(args[0], args[1])
@model("cmp::max", "Ord::max", "num::max")
def cmax(it, fr, st, a, args, loc):
    return mx(args[0], args[1])
@model("num::saturating_sub")
def satsub(it, fr, st, a, args, loc):
    return sub(args[0], mn(args[0], args[1]))
@model("num::wrapping_add", "num::saturating_add")
def wadd(it, fr, st, a, args, loc):
    return add(args[0], args[1])
@model("num::wrapping_sub")
def wsub(it, fr, st, a, args, loc):
    return sub(args[0], args[1])
@model("num::wrapping_mul", "num::saturating_mul")
def wmul(it, fr, st, a, args, loc):
    return mul(args[0], args[1])
@model("num::checked_sub")
def csub(it, fr, st, a, args, loc):
    return mk_opt(t.le(args[1], args[0]), sub(args[0], args[1]))
@model("num::checked_add")
def cadd(it, fr, st, a, args, loc):
    return some(add(args[0], args[1]))
@model("num::checked_mul")
def cmul(it, fr, st, a, args, loc):
    return some(mul(args[0], args[1]))
@model("num::checked_pow")
def cpow(it, fr, st, a, args, loc):
    return some(power(args[0], args[1]))

def tracing_ty(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty[0] == "adt" and ty[1].split("::")[0] in ("tracing_core", "log", "tracing")
def pcmp(f):
    def g(it, fr, st, a, args, loc):
        if tracing_ty(a[0]):
            return FALSE
        if is_local_adt(it, strip(a[0])):
            return NotImplemented
        return f(V(it, st, args[0]), V(it, st, args[1]))
    return g
def strip(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty
M["PartialOrd::le"] = pcmp(t.le)
M["PartialOrd::lt"] = pcmp(t.lt)
M["PartialOrd::ge"] = pcmp(lambda a, b: t.le(b, a))
M["PartialOrd::gt"] = pcmp(lambda a, b: t.lt(b, a))
def do_eq(it, fr, st, a, x, y, loc):
    x, y = V(it, st, x), V(it, st, y)
    ty = strip(a[0])
    if is_local_adt(it, ty):
        r = call_trait(it, fr, st, "core::cmp::PartialEq", "eq", (ty, ty), [x, y], loc)
        if r is not None:
            return r
    return seq_eq(x, y, ty)
def seq_eq(x, y, ty):
    if ty[0] in ("slice", "arr") or (ty[0] == "adt" and ty[1].endswith("::Vec")):
        if x is y:
            return TRUE
        v = fresh_iv()
        el = ty[1] if ty[0] != "adt" else ty[2][0]
        return conj(eq(length(x), length(y)), t.forall(length(x), v, seq_eq(idx(x, v), idx(y, v), el)))
    return eq(x, y)
@model("PartialEq::eq")
def peq(it, fr, st, a, args, loc):
    return do_eq(it, fr, st, a, args[0], args[1], loc)
@model("PartialEq::ne")
def pne(it, fr, st, a, args, loc):
    return nt(do_eq(it, fr, st, a, args[0], args[1], loc))
@model("Ord::cmp", "PartialOrd::partial_cmp")
def ocmp(it, fr, st, a, args, loc):
    x, y = V(it, st, args[0]), V(it, st, args[1])
    O = t.ORD
    lt_, eq_ = t.lt(x, y), eq(x, y)
    return ite(lt_, agg(O, 0, ()), ite(eq_, agg(O, 1, ()), agg(O, 2, ())))
@model("RangeInclusive::new")
def rinew(it, fr, st, a, args, loc):
    return agg(RANGEI, 0, (args[0], args[1], FALSE))
@model("range::contains", "Range::contains", "RangeInclusive::contains")
def rcontains(it, fr, st, a, args, loc):
    r, x = V(it, st, args[0]), V(it, st, args[1])
    lo, hi = r.args[2][:2]
    return conj(t.le(lo, x), t.lt(x, hi) if r.args[0] == RANGE else t.le(x, hi))

def convert(it, fr, st, src, dst, x, loc):
    r = call_trait(it, fr, st, "core::convert::From", "from", (dst, src), [x], loc)
    if r is not None:
        return r
    if strip(src) == ("p", "bool"):
        return ite(x, ONE, ZERO)
    return x
@model("Into::into")
def minto(it, fr, st, a, args, loc):
    x = args[0]
    return convert(it, fr, st, a[0], a[1], x, loc)
@model("From::from")
def mfrom(it, fr, st, a, args, loc):
    return convert(it, fr, st, a[1], a[0], args[0], loc)
@model("TryInto::try_into")
def mtryinto(it, fr, st, a, args, loc):
    return try_conv(it, fr, st, args[0], a[0], a[1], loc)
@model("TryFrom::try_from")
def mtryfrom(it, fr, st, a, args, loc):
    return try_conv(it, fr, st, args[0], a[1], a[0], loc)
def try_conv(it, fr, st, x, src, dst, loc):
    if dst[0] == "ref" and dst[2] and dst[1][0] == "arr" and str(dst[1][2]).isdigit() and it._has_mref(x):
        # a mutable slice as a mutable array: the same place
        return mk_res(eq(length(V(it, st, x)), num(int(dst[1][2]))), x, mk("app", "err"))
    x = V(it, st, x)
    r = call_trait(it, fr, st, "core::convert::TryFrom", "try_from", (dst, src), [x], loc)
    if r is not None:
        return r
    d = strip(dst)
    if d[0] == "arr" and str(d[2]).isdigit():
        return mk_res(eq(length(x), num(int(d[2]))), x, mk("app", "err"))
    if d[0] == "p" and strip(src)[0] == "p":
        return ok(x)
    return mk_res(mk("app", "fits:" + tystr(d), x), x, mk("app", "err"))
@model("ToPrimitive::to_usize", "ToPrimitive::to_u64", "ToPrimitive::to_u32")
def toprim(it, fr, st, a, args, loc):
    return some(V(it, st, args[0]))

# ------------------------------------------------------------------ curves
@model("AffineRepr::mul_bigint", "PrimeGroup::mul_bigint")
def mulbig(it, fr, st, a, args, loc):
    return mul(V(it, st, args[0]), V(it, st, args[1]))
@model("VariableBaseMSM::msm_unchecked", "msm::msm_unchecked", "VariableBaseMSM::msm", "VariableBaseMSM::msm_bigint", "msm::msm_bigint")
def msm(it, fr, st, a, args, loc):
    p, s = V(it, st, args[0]), V(it, st, args[1])
    n = zlen(it, st, p, s, loc)
    v = fresh_iv()
    return summ(n, v, mul(idx(p, v), idx(s, v)))
@model("PrimeField::into_bigint", "PrimeField::from_bigint_x")
def intobig(it, fr, st, a, args, loc):
    return V(it, st, args[0])
@model("PrimeField::from_bigint")
def frombig(it, fr, st, a, args, loc):
    return some(V(it, st, args[0]))

# ------------------------------------------------------------------ randomness
def seedpos(v):
    if v.op == "agg" and v.args[0] == "rng":
        return v.args[2]
    if v.op == "ite":
        (a, p), (b, q) = seedpos(v.args[1]), seedpos(v.args[2])
        return ite(v.args[0], a, b), ite(v.args[0], p, q)
    return v, ZERO
def draw(it, st, r):
    r = final_ref(it, st, r) if r.op == "mref" else r
    v = V(it, st, r)
    seed, pos = seedpos(v)
    if r.op != "mref" and not it._has_mref(r):
        raise Unsupported("rng by value")
    it.store_to(st, r, agg("rng", 0, (seed, add(pos, ONE))))
    return mk("draw", seed, pos)
@model("UniformRand::rand", "Rng::gen", "RngCore::next_u64", "RngCore::next_u32", "Rng::random")
def mrand(it, fr, st, a, args, loc):
    return draw(it, st, args[-1] if len(args) > 1 else args[0])
@model("RngCore::fill_bytes", "Rng::fill")
def mfill(it, fr, st, a, args, loc):
    d = draw(it, st, args[0])
    old = V(it, st, args[1])
    if old.op == "arr":
        d = gen(length(old), lambda i: mk("app", "byte", d, i))
    it.store_to(st, args[1], d)
    return UNIT
@model("UintBackend::random_bits")
def mrandbits(it, fr, st, a, args, loc):
    return mk("app", "lowbits", draw(it, st, args[0]), args[1])
@model("Rng::gen_range")
def mgenrange(it, fr, st, a, args, loc):
    return mk("app", "inrange", draw(it, st, args[0]), args[1])
@model("SeedableRng::from_seed")
def fromseed(it, fr, st, a, args, loc):
    return agg("rng", 0, (mk("app", "seeded", args[0]), ZERO))
@model("SeedableRng::from_entropy", "SeedableRng::from_os_rng")
def fromentropy(it, fr, st, a, args, loc):
    c = ("g", "entropy")
    v = it.read_cell(st, c)
    st.store[c] = add(v, ONE)
    return agg("rng", 0, (mk("app", "entropy", v), ZERO))
@model("SeedableRng::from_rng")
def fromrng(it, fr, st, a, args, loc):
    return ok(agg("rng", 0, (mk("app", "seeded", draw(it, st, args[0])), ZERO)))
@model("thread::thread_rng", "rand::thread_rng")
def threadrng(it, fr, st, a, args, loc):
    return mk("mref", ("g", "trng"), ())

# ------------------------------------------------------------------ serialisation
def ser(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    w = args[1]
    if w.op != "mref":
        return ok(UNIT)
    r = final_ref(it, st, w)
    b = it.load(st, r)
    it.store_to(st, r, cat(b, mk("ser", x)))
    return ok(UNIT)
M["CanonicalSerialize::serialize_uncompressed"] = ser
def serc(it, fr, st, a, args, loc):
    x = V(it, st, args[0])
    r = final_ref(it, st, args[1])
    it.store_to(st, r, cat(it.load(st, r), mk("app", "cser", x)))
    return ok(UNIT)
M["CanonicalSerialize::serialize_compressed"] = serc
def choice(it, st, x):
    """variant number of a fieldless enum value (Compress, Validate: 0 = Yes), None if not known"""
    x = V(it, st, x)
    return x.args[1] if x.op == "agg" and not x.args[2] else None
@model("CanonicalSerialize::serialize_with_mode")
def sermode(it, fr, st, a, args, loc):
    c = choice(it, st, args[2])
    if c is not None:
        return (serc if c == 0 else ser)(it, fr, st, a, args[:2], loc)
    if args[1].op != "mref":
        raise Unsupported("serialize_with_mode to an unknown writer")
    r = final_ref(it, st, args[1])
    it.store_to(st, r, cat(it.load(st, r), mk("app", "mser", V(it, st, args[0]), V(it, st, args[2]))))
    return ok(UNIT)
# byte streams: a writer is the sequence written so far, a reader what is left to read
def stream_arg(it, st, x):
    r = final_ref(it, st, x) if x.op == "mref" else None
    return r, (it.load(st, r) if r is not None else V(it, st, x))
@model("Write::write_all")
def wall(it, fr, st, a, args, loc):
    r, w = stream_arg(it, st, args[0])
    b = V(it, st, args[1])
    if r is not None:
        it.store_to(st, r, mk("app", "Write::write_all!0", w, b))
    x = mk("app", "Write::write_all", w, b)
    return mk_res(mk("isok", x), UNIT, mk("errv", x))
@model("Read::read_exact")
def rexact(it, fr, st, a, args, loc):
    r, w = stream_arg(it, st, args[0])
    if r is None:
        raise Unsupported("read_exact from an unknown reader")
    q = final_ref(it, st, args[1])
    old = it.load(st, q)
    it.store_to(st, r, mk("app", "Read::read_exact!0", w, old))
    it.store_to(st, q, mk("app", "Read::read_exact!1", w, old))
    x = mk("app", "Read::read_exact", w, old)
    return mk_res(mk("isok", x), UNIT, mk("errv", x))
@model("CanonicalSerialize::serialized_size", "CanonicalSerialize::uncompressed_size", "CanonicalSerialize::compressed_size")
def sersize(it, fr, st, a, args, loc):
    return mk("app", "sersize", V(it, st, args[0]))
def deser(name):
    def f(it, fr, st, a, args, loc):
        b = V(it, st, args[0])
        if b.op == "iter":
            b = slc0(b)
        if b.op == "ser" and name != "c":
            return ok(b.args[0])
        return mk_res(mk("app", "deser?" + name, b), mk("app", "deser" + name, b), mk("app", "err"))
    return f
for n, k in (("deserialize_uncompressed_unchecked", "u"), ("deserialize_uncompressed", ""), ("deserialize_compressed", "c"), ("deserialize_compressed_unchecked", "cu"),
             ("deserialize_uncompressed_unchecked", "u")):
    M["CanonicalDeserialize::" + n] = deser(k)
@model("CanonicalDeserialize::deserialize_with_mode")
def desermode(it, fr, st, a, args, loc):
    c, v = choice(it, st, args[1]), choice(it, st, args[2])
    if c is None or v is None:
        b = V(it, st, args[0])
        if b.op == "iter":
            b = slc0(b)
        return mk_res(mk("app", "deser?m", b, V(it, st, args[1]), V(it, st, args[2])), mk("app", "deserm", b, V(it, st, args[1]), V(it, st, args[2])), mk("app", "err"))
    return deser(("c" if c == 0 else "") + ("" if v == 0 else "u"))(it, fr, st, a, args[:1], loc)

# ------------------------------------------------------------------ network (ghost: what was sent to whom, how many were received from whom)
def net_of(it, st, x):
    return V(it, st, x)
def g_read(it, st, kind, net):
    c = ("g", kind, net)
    v = st.store.get(c)
    if v is None:
        v = st.store[c] = it.ghost_default(c)
    return c, v
@model("Network::send")
def nsend(it, fr, st, a, args, loc):
    net, to, data = net_of(it, st, args[0]), args[1], V(it, st, args[2])
    st.emit("send", net, to, data)
    return mk_res(mk("app", "sendok", net, to, data), UNIT, mk("app", "err"))
@model("Network::recv")
def nrecv(it, fr, st, a, args, loc):
    net, frm = net_of(it, st, args[0]), args[1]
    c, m = g_read(it, st, "rcnt", net)
    k = idx(m, frm)
    st.store[c] = upd(m, frm, add(k, ONE))
    st.emit("recv", net, frm, k)
    return mk_res(mk("app", "recvok", net, frm, k), mk("msg", net, frm, k), mk("app", "err"))
@model("Network::id")
def nid(it, fr, st, a, args, loc):
    return mk("app", "netid", net_of(it, st, args[0]))

# ------------------------------------------------------------------ concurrency
@model("join::join", "rayon_core::join", "rayon::join")
def rjoin(it, fr, st, a, args, loc):
    # the parts are summarised one after the other; what each does is kept for the rules on concurrency
    n0 = len(st.ev)
    x = it.call_val(fr, st, args[0], [], loc)
    if x is None:
        return None
    n1 = len(st.ev)
    y = it.call_val(fr, st, args[1], [], loc)
    if y is None:
        return None
    it.stats.setdefault("joins", []).append((loc, [list(st.ev[n0:n1]), list(st.ev[n1:])]))
    return tup(x, y)
@model("thread::scope", "scoped::scope", "rayon_core::scope", "scope::scope")
def tscope(it, fr, st, a, args, loc):
    sp = it.stats.setdefault("spawns", [])
    k0 = len(sp)
    r = it.call_val(fr, st, args[0], [mk("sym", "scope")], loc)
    for x in sp[k0:]:
        if not x[3]:
            x[3] = True
            it.stats.setdefault("joins", []).append((x[0], [x[1], list(st.ev[x[2]:])]))
    return r
@model("Scope::spawn", "scoped::spawn", "thread::spawn")
def tspawn(it, fr, st, a, args, loc):
    n0 = len(st.ev)
    v = it.call_val(fr, st, args[-1], [], loc)
    sp = it.stats.setdefault("spawns", [])
    sp.append([loc, list(st.ev[n0:]), len(st.ev), False])
    return agg("handle", 0, (v, num(len(sp) - 1))) if v is not None else None
@model("ScopedJoinHandle::join", "JoinHandle::join")
def tjoin(it, fr, st, a, args, loc):
    h = V(it, st, args[0])
    k = field(h, 1, None)
    k = k.args[0] if k.op == "poly" else None
    sp = it.stats.get("spawns", [])
    k = (k[0][1] if k else 0) if k is not None and (not k or k[0][0] == ()) else None
    if k is not None and k < len(sp) and not sp[k][3]:
        sp[k][3] = True
        it.stats.setdefault("joins", []).append((sp[k][0], [sp[k][1], list(st.ev[sp[k][2]:])]))
    return ok(field(h, 0, None))
@model("Instant::now", "Instant::elapsed", "Duration::as_micros", "Duration::as_millis", "Duration::as_secs_f64", "Duration::as_secs", "Instant::duration_since")
def mtime(it, fr, st, a, args, loc):
    return mk("app", "time")
def unitm(it, fr, st, a, args, loc):
    return UNIT
for n in ("Span::new", "Span::entered", "EnteredSpan::exit", "Span::enter", "Span::record_all", "__macro_support::__disabled_span", "Event::dispatch", "Interest::never",
          "Span::none", "Span::current", "__macro_support::__tracing_log", "Callsite::metadata", "Metadata::fields", "FieldSet::value_set_all", "io::_print", "stdio::_print", "io::_eprint", "stdio::_eprint"):
    M[n] = unitm
M["dispatcher::has_been_set"] = lambda *a: FALSE
@model("rayon_core::current_num_threads", "lib::current_num_threads")
def nthreads(it, fr, st, a, args, loc):
    return mk("app", "nthreads")
@model("TypeId::of")
def typeid(it, fr, st, a, args, loc):
    return mk("str", "type " + tystr(a[0]))

def ghost_default(c):
    if c[1] == "sent":
        return rep(INF, lit())
    if c[1] == "rcnt":
        return rep(INF, ZERO)
    if c[1] == "entropy":
        return ZERO
    return mk("sym", "ghost " + str(c[1]))
M = {k: v for k, v in M.items() if v is not None}

@model("Box::new_uninit", "boxed::Box::new_uninit", "new_uninit", "boxed::new_uninit")
def box_uninit(it, fr, st, a, args, loc):
    return mk("mref", it.new_cell(st, mk("uninit"), "box"), ())
@model("box_assume_init_into_vec_unsafe", "boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "boxed::assume_init")
def box_init(it, fr, st, a, args, loc):
    return it.deref_all(st, args[0])

# ---------------------------------------------------------------- further combinators
@model("slice::split_first")
def ssplit_first(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    n = length(v)
    return mk_opt(it.simp(t.lt(ZERO, n), st.facts), tup(idx(v, ZERO), slc(v, ONE, n)))
@model("slice::split_last")
def ssplit_last(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    n = length(v)
    return mk_opt(it.simp(t.lt(ZERO, n), st.facts), tup(idx(v, sub(n, ONE)), slc(v, ZERO, sub(n, ONE))))
@model("slice::first_mut")
def sfirstm(it, fr, st, a, args, loc):
    v = V(it, st, args[0])
    return mk_opt(t.lt(ZERO, length(v)), map_path(it, st, args[0], ("i", ZERO)))
def _ozip(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    c2, v2 = opt_parts(V(it, st, r[0]))
    return mk_opt(conj(c, c2), tup(v, v2)) if v is not None and v2 is not None else NONE
M["Option::zip"] = okfn(_ozip)
def _oor(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    c2, v2 = opt_parts(V(it, st, r[0]))
    if v is None or v2 is None:
        return r[0] if v is None else x
    return mk_opt(t.disj(c, c2), ite(c, v, v2))
M["Option::or"] = okfn(_oor)
def _oorelse(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    if c is TRUE:
        return x
    y = guarded(it, fr, st, nt(c), lambda s: it.call_val(fr, s, r[0], [], loc))
    if y.op == "bot":
        return x
    c2, v2 = opt_parts(y)
    if v is None or v2 is None:
        return y if v is None else x
    return mk_opt(t.disj(c, c2), ite(c, v, v2))
M["Option::or_else"] = okfn(_oorelse)
def _ofilter(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    if c is FALSE:
        return NONE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    return mk_opt(conj(c, y), v)
M["Option::filter"] = okfn(_ofilter)
def _is_none_or(it, fr, st, x, r, loc):
    c, v = opt_parts(x)
    if c is FALSE:
        return TRUE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[0], [v], loc))
    return t.disj(nt(c), y)
M["Option::is_none_or"] = okfn(_is_none_or)
def _map_or_else(it, fr, st, x, r, loc):
    c, v = parts(x)
    errs = [mk("app", "err")] if is_result(x, ()) else []
    if c is FALSE:
        return it.call_val(fr, st, r[0], errs, loc)
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, r[1], [v], loc))
    if c is TRUE:
        return y
    z = guarded(it, fr, st, nt(c), lambda s: it.call_val(fr, s, r[0], errs, loc))
    return y if z.op == "bot" else z if y.op == "bot" else ite(c, y, z)
M["Option::map_or_else"] = M["Result::map_or_else"] = okfn(_map_or_else)
def _ror_else(it, fr, st, x, r, loc):
    c, v, e = res_parts(x)
    if c is TRUE:
        return x
    y = guarded(it, fr, st, nt(c), lambda s: it.call_val(fr, s, r[0], [mk("app", "err")], loc))
    if y.op == "bot":
        return x
    c2, v2, e2 = res_parts(y)
    if v is None or v2 is None:
        return y if v is None else x
    return mk_res(t.disj(c, c2), ite(c, v, v2), mk("app", "err"))
M["Result::or_else"] = okfn(_ror_else)
@model("bool::then")
def bthen(it, fr, st, a, args, loc):
    c = it.simp(V(it, st, args[0]), st.facts)
    if c is FALSE:
        return NONE
    y = guarded(it, fr, st, c, lambda s: it.call_val(fr, s, args[1], [], loc))
    return mk_opt(c, y)
@model("bool::then_some")
def bthensome(it, fr, st, a, args, loc):
    c = it.simp(V(it, st, args[0]), st.facts)
    return mk_opt(c, args[1])

# results of inlined calls: errors are only taken to be passed on where they are
def looked_at(f):
    def g(it, fr, st, a, args, loc):
        x = V(it, st, args[0])
        if it.pend(st, x):
            args = [it.unabsorb(st, x)] + list(args[1:])
        return f(it, fr, st, a, args, loc)
    return g
def hardened(f):
    def g(it, fr, st, a, args, loc):
        it.harden(st, V(it, st, args[0]))
        return f(it, fr, st, a, args, loc)
    return g
for n in ("ok", "is_ok", "is_err", "err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "or_else", "or", "is_ok_and", "is_err_and", "into_iter", "iter"):
    if "Result::" + n in M:
        M["Result::" + n] = looked_at(M["Result::" + n])
for n in ("unwrap", "expect"):
    M["Result::" + n] = hardened(M["Result::" + n])
