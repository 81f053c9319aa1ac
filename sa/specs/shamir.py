"""Properties of the Shamir protocol layer."""
from .common import *

BIN = {"Add": ("add", t.add), "Sub": ("sub", t.sub), "Mul": ("mul", t.mul), "AddAssign": ("add_assign", t.add), "SubAssign": ("sub_assign", t.sub),
       "MulAssign": ("mul_assign", t.mul)}

def peel(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty
def share_kind(ty):
    ty = peel(ty)
    return ty[1].split("::")[-1] if ty[0] == "adt" and ty[1].split("::")[-1] in (FS, PS) else None
def unwrap_share(v, ty):
    return inner(v) if share_kind(ty) else v

def S04(cx):
    """share operators act on the underlying element; conversions keep it"""
    seen = 0
    for im in cx.p.impls:
        if not im["trait"]:
            continue
        tr = im["trait"].split("::")[-1]
        lhs, rhs = im["targs"][0], im["targs"][1] if len(im["targs"]) > 1 else None
        kl, kr = share_kind(lhs), share_kind(rhs) if rhs else None
        if not (kl or kr) or not im["crate"].startswith("mpc_core"):
            continue
        if tr in BIN:
            name, op = BIN[tr]
            it_ = im["items"].get(name)
            if not it_ or it_[1] not in cx.p.fns:
                raise Missing(im["key"])
            f = cx.fn(it_[1])
            seen += 1
            r = cx.run(f)
            x, y = unwrap_share(r.args["#0"], lhs), unwrap_share(r.args["#1"], rhs)
            kind = PS if PS in (kl, kr) else FS
            want = mkstruct(cx, kind, a=op(x, y))
            rule = "%s of %s and %s acts on the shared element" % (tr, tystr(lhs), tystr(rhs))
            if tr.endswith("Assign"):
                cx.same(f, rule, r.after("#0"), want, envs())
            elif r.ret is None:
                cx.bad(f, rule, "never returns")
            else:
                cx.same(f, rule, r.ret, want, envs())
        elif tr == "Neg":
            f = cx.fn(im["items"]["neg"][1])
            r = cx.run(f)
            seen += 1
            cx.same(f, "negation of a share negates the element", r.ret, mkstruct(cx, kl, a=t.neg(inner(r.args["#0"]))), envs())
        elif tr == "Zero":
            f = cx.fn(im["items"]["zero"][1])
            cx.same(f, "zero share", cx.run(f).ret, mkstruct(cx, kl, a=ZERO), envs())
            f = cx.fn(im["items"]["is_zero"][1])
            r = cx.run(f)
            rule = "is_zero of a share does not pretend to know the shared value"
            if r.ret is None:
                cx.good(f, rule, "never returns")
            else:
                cx.bad(f, rule, "answers %s" % clip(r.ret))
            seen += 2
        elif tr == "Default" and kl == PS:
            f = cx.fn(im["items"]["default"][1])
            cx.same(f, "default share is zero", cx.run(f).ret, mkstruct(cx, kl, a=ZERO), envs())
    if seen < 28:
        cx.bad("operators of Shamir shares", "operator impls enumerated", "only %d found" % seen)
    for kind in (FS, PS):
        sh = lambda x: mkstruct(cx, kind, a=x)
        un = lambda s: gen(length(s), lambda i: field(idx(s, i), 0, "a"))
        wr = lambda s: gen(length(s), lambda i: sh(idx(s, i)))
        for name, w in (("new", sh), ("inner", inner), ("convert", inner), ("convert_slice", un), ("convert_vec", un), ("convert_slice_rev", wr), ("convert_vec_rev", wr),
                        ("convert_mut", None), ("zero_share", None)):
            if kind == PS and name in ("convert_mut", "zero_share"):
                continue
            f = cx.meth1(kind, name)
            if name == "convert_mut":
                continue
            r = cx.run(f)
            if name == "zero_share":
                cx.same(f, "zero share", r.ret, sh(ZERO), envs())
            else:
                cx.same(f, "%s::%s keeps the elements" % (kind, name), r.ret, w(r.args["#0"]), envs())

def zipw(a, b, f):
    """element-wise combination of two sequences"""
    n = t.mn(length(a), length(b))
    return gen(n, lambda i: f(idx(a, i), idx(b, i)))
def arity(v):
    return field(v, 0, "a")

def S05(cx):
    """local Shamir operations compute the named linear function"""
    fs, ps = lambda x: fshare(cx, x), lambda x: pshare(cx, x)
    a0, a1, a2 = (lambda r: r.args["#0"]), (lambda r: r.args["#1"]), (lambda r: r.args["#2"])
    pure = [
        (A + "add", lambda r: fs(add(inner(a0(r)), inner(a1(r))))),
        (A + "sub", lambda r: fs(sub(inner(a0(r)), inner(a1(r))))),
        (A + "neg", lambda r: fs(neg(inner(a0(r))))),
        (A + "add_public", lambda r: fs(add(inner(a0(r)), a1(r)))),
        (A + "mul_public", lambda r: fs(mul(inner(a0(r)), a1(r)))),
        (A + "promote_to_trivial_share", lambda r: fs(a0(r))),
        (A + "promote_to_trivial_shares", lambda r: gen(length(a0(r)), lambda i: fs(idx(a0(r), i)))),
        (A + "local_mul_vec", lambda r: gen(length(a0(r)), lambda i: mul(inner(idx(a0(r), i)), inner(idx(a1(r), i))))),
        (PSH + "add", lambda r: ps(add(inner(a0(r)), inner(a1(r))))),
        (PSH + "sub", lambda r: ps(sub(inner(a0(r)), inner(a1(r))))),
        (PSH + "scalar_mul_public_point", lambda r: ps(mul(inner(a0(r)), a1(r)))),
        (PSH + "scalar_mul_public_scalar", lambda r: ps(mul(inner(a0(r)), a1(r)))),
        (PSH + "scalar_mul_local", lambda r: mul(inner(a0(r)), inner(a1(r)))),
        (PSH + "promote_to_trivial_share", lambda r: ps(a0(r))),
        (PSH + "msm_public_points", lambda r: ps(msm(a0(r), a1(r)))),
        (SH + "evaluate_poly", lambda r: horner(a0(r), a1(r))),
        (SH + "evaluate_poly_point", lambda r: horner(a0(r), a1(r))),
        (SH + "poly::eval_poly", lambda r: fs(poly_share(a0(r), a1(r)))),
    ]
    for key, want in pure:
        f = cx.fn(key)
        r = cx.run(f)
        rule = key.split("::")[-2] + "::" + key.split("::")[-1] + " computes its linear function of the shares"
        if r.ret is None:
            cx.bad(f, rule, "never returns")
            continue
        cx.same(f, rule, r.ret, want(r), envs(n=3), r.ev)
        if key.endswith("eval_poly"):
            for n, th in ((40, 2), (33, 1), (17, 4), (100, 3)):
                cx.same(f, rule + " (%d coefficients, %d threads)" % (n, th), r.ret, want(r), envs(n=n, seeds=(5,), appfn={"nthreads": lambda E, a, th=th: th}), r.ev)
    inpl = [
        (A + "add_assign", lambda r: fs(add(inner(a0(r)), inner(a1(r))))),
        (A + "sub_assign", lambda r: fs(sub(inner(a0(r)), inner(a1(r))))),
        (A + "add_assign_public", lambda r: fs(add(inner(a0(r)), a1(r)))),
        (A + "mul_assign_public", lambda r: fs(mul(inner(a0(r)), a1(r)))),
        (A + "add_vec_assign", lambda r: gen(length(a0(r)), lambda i: fs(add(inner(idx(a0(r), i)), inner(idx(a1(r), i)))))),
        (A + "sub_vec_assign", lambda r: gen(length(a0(r)), lambda i: fs(sub(inner(idx(a0(r), i)), inner(idx(a1(r), i)))))),
        (PSH + "add_assign", lambda r: ps(add(inner(a0(r)), inner(a1(r))))),
        (PSH + "sub_assign", lambda r: ps(sub(inner(a0(r)), inner(a1(r))))),
        (PSH + "add_assign_public", lambda r: ps(add(inner(a0(r)), a1(r)))),
        (PSH + "sub_assign_public", lambda r: ps(sub(inner(a0(r)), a1(r)))),
        (PSH + "add_assign_public_affine", lambda r: ps(add(inner(a0(r)), a1(r)))),
        (PSH + "sub_assign_public_affine", lambda r: ps(sub(inner(a0(r)), a1(r)))),
    ]
    for key, want in inpl:
        f = cx.fn(key)
        r = cx.run(f)
        cx.same(f, key.split("::")[-2] + "::" + key.split("::")[-1] + " updates its operand to the linear function of the shares", r.after("#0"), want(r), envs(), r.ev)
    # division by a public element
    f = cx.fn(A + "div_shared_by_public")
    r = cx.run(f)
    cx.same(f, "div_shared_by_public multiplies by the inverse", r.ok(), fs(mul(inner(a0(r)), inv(a1(r)))), envs(), r.ev)
    cx.must_fail(f, "div_shared_by_public rejects zero", r.ev, envs(vals={nm(f, 1): 0}), "division by zero is not reported as an error")

def nm(f, i):
    n = [n for n, p in f.body["names"] if list(p) == [i + 1]]
    return n[0]
def horner(p, x):
    n = length(p)
    v = fresh_iv()
    return summ(n, v, mul(idx(p, v), power(x, v)))
def poly_share(p, x):
    v = fresh_iv()
    return summ(length(p), v, mul(inner(idx(p, v)), power(x, v)))
def msm(points, scalars):
    v = fresh_iv()
    return summ(length(points), v, mul(idx(points, v), inner(idx(scalars, v))))
