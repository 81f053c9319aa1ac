"""Properties of the replicated-sharing layer: operators of the share types, party addressing, and the communication extension."""
from .common import *

RF, RU, RP = "Rep3PrimeFieldShare", "Rep3UintShare", "Rep3PointShare"
KINDS = (RF, RU, RP)
RNET = "mpc_core::protocols::rep3::network::Rep3NetworkExt::"
LINEAR = {"Add": ("add", "lin"), "Sub": ("sub", "lin"), "AddAssign": ("add_assign", "lin"), "SubAssign": ("sub_assign", "lin"),
          "Mul": ("mul", "lin"), "MulAssign": ("mul_assign", "lin"),
          "BitXor": ("bitxor", "bit"), "BitXorAssign": ("bitxor_assign", "bit"), "BitAnd": ("bitand", "bit"), "BitAndAssign": ("bitand_assign", "bit"),
          "Shl": ("shl", "shift"), "ShlAssign": ("shl_assign", "shift"), "Shr": ("shr", "shift"), "ShrAssign": ("shr_assign", "shift")}
OPS = {"Add": lambda x, y: (x + y) % PRIME, "Sub": lambda x, y: (x - y) % PRIME, "Mul": lambda x, y: x * y % PRIME,
       "BitXor": lambda x, y: x ^ y, "BitAnd": lambda x, y: x & y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y}

def peel(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty
def rkind(ty):
    ty = peel(ty)
    k = ty[1].split("::")[-1] if ty[0] == "adt" else None
    return k if k in KINDS else None
def parts(cx, v, kind):
    return fget(cx, v, "a"), fget(cx, v, "b")
def both(cx, f, rule, got, kind, a, b):
    """the share `got` has the components a and b"""
    if got is None:
        cx.bad(f, rule, "never returns")
        return
    cx.same(f, rule, tup(field(got, 0, "a"), field(got, 1, "b")), tup(a, b), envs())
def party_shares(x, i):
    """what party i of three holds of the additive (or xor) shares x"""
    return x[i], x[i - 1]
def draw(seed, name, mode):
    x = [hnum("r3", seed, name, j) for j in range(3)]
    if seed > 3:
        # components that coincide or are special
        k = (seed - 4) if name == "x" else (seed - 4) * 3 + 1
        r, s = x[0], x[1]
        x = [[r, r, s], [r, s, r], [s, r, r], [r, r, r], [0, 0, 0], [1, 0, 0], [r, 0, s]][k % 7]
    return x if mode == "lin" else [v % (1 << 24) for v in x]
def total(x, mode):
    if mode == "lin":
        return sum(x) % PRIME
    r = 0
    for v in x:
        r ^= v
    return r

def operator(cx, f, tr, kl, kr, loc):
    """three parties apply the operator to their shares: the results are shares of the operator's value on the shared values, replicated when
    they are replicated shares, and additive ones otherwise"""
    base = tr[:-6] if tr.endswith("Assign") else tr
    mode = LINEAR[tr][1]
    op = OPS[base]
    r = cx.run(f)
    rule = "%s of %s and %s applies to the shared values" % (tr, kl or "a public value", kr or "a public value")
    got = r.after("#0") if tr.endswith("Assign") else r.ret
    if got is None:
        cx.bad(f, rule, "never returns")
        return
    def leaf(v):
        if v.op != "sym":
            raise Undecided("argument is no symbol: %s" % clip(v))
        return v.args[0]
    A0, A1 = r.args["#0"], r.args["#1"]
    def test():
        n = 0
        for seed in range(1, 11):
            ms = "bit" if mode == "shift" else mode
            x = draw(seed, "x", ms) if kl else [draw(seed, "x", ms)[0]]
            y = draw(seed, "y", ms) if kr else [draw(seed, "y", ms)[0]]
            if mode == "shift":
                y = [3 + seed] if seed < 4 else [(0, 1, 2, 7, 8, 9, 12)[seed - 4]]
            outs = []
            for i in range(3):
                vals = {}
                for V, k, z in ((A0, kl, x), (A1, kr, y)):
                    if k:
                        a, b = parts(cx, V, k)
                        za, zb = party_shares(z, i)
                        vals[leaf(a)], vals[leaf(b)] = za, zb
                    else:
                        vals[leaf(V)] = z[0]
                E = Env(seed=seed, vals=vals, bools=honest)
                v = E.ev(got)
                if isinstance(v, Agg) and v.key.split("::")[-1] in KINDS:
                    fs = {fn[0]: w for fn, w in zip(cx.p.adts[v.key]["variants"][0][1], v.f)}
                    outs.append((E.num(fs["a"]), E.num(fs["b"])))
                else:
                    outs.append((E.num(v), None))
                n += 1
            want = op(total(x, ms) if kl else x[0], total(y, ms) if kr else y[0])
            if any(o[1] is not None for o in outs):
                for i in range(3):
                    if outs[i][1] != outs[i - 1][0]:
                        return "the second component of party %d is not the first one of party %d" % (i, (i - 1) % 3)
            got_ = total([o[0] for o in outs], ms)
            if got_ != want:
                return "the parties' results are shares of another value"
        if kl and kr and base in ("Mul", "BitAnd"):
            return None
        # otherwise the result is a replicated share
        if outs[0][1] is None:
            return "the result is no replicated share"
        return None
    cx.decide(f, rule, test, "composed for three parties holding (x_i, x_i-1)")

def R04(cx):
    """operators of replicated shares"""
    seen = 0
    for im in cx.p.impls:
        if not im["trait"] or not im["crate"].startswith("mpc_core"):
            continue
        tr = im["trait"].split("::")[-1]
        lhs, rhs = im["targs"][0], im["targs"][1] if len(im["targs"]) > 1 else None
        kl, kr = rkind(lhs), rkind(rhs) if rhs else None
        if not (kl or kr):
            continue
        if tr in LINEAR:
            it_ = im["items"].get(LINEAR[tr][0])
            if not it_ or it_[1] not in cx.p.fns:
                raise Missing(im["key"])
            operator(cx, cx.fn(it_[1]), tr, kl, kr, None)
            seen += 1
        elif tr == "Neg":
            f = cx.fn(im["items"]["neg"][1])
            r = cx.run(f)
            a, b = parts(cx, r.args["#0"], kl)
            both(cx, f, "negation of %s negates both components" % kl, r.ret, kl, t.neg(a), t.neg(b))
            seen += 1
        elif tr == "Zero":
            f = cx.fn(im["items"]["zero"][1])
            both(cx, f, "zero share of %s" % kl, cx.run(f).ret, kl, ZERO, ZERO)
            f = cx.fn(im["items"]["is_zero"][1])
            r = cx.run(f)
            rule = "is_zero of %s does not pretend to know the shared value" % kl
            cx.good(f, rule, "never returns") if r.ret is None else cx.bad(f, rule, "answers %s" % clip(r.ret))
            seen += 1
        elif tr == "Default":
            f = cx.fn(im["items"]["default"][1])
            both(cx, f, "default share of %s is zero" % kl, cx.run(f).ret, kl, ZERO, ZERO)
            seen += 1
    if seen < 38:
        cx.bad("operators of replicated shares", "operator impls enumerated", "only %d found" % seen)
    # ------------------------------------------------------------ constructors and component-wise methods
    for kind in KINDS:
        f = cx.meth1(kind, "new")
        r = cx.run(f)
        both(cx, f, "new of %s keeps both components in order" % kind, r.ret, kind, r.args["#0"], r.args["#1"])
        f = cx.meth1(kind, "ab")
        r = cx.run(f)
        cx.same(f, "ab of %s gives both components in order" % kind, r.ret, tup(*parts(cx, r.args["#0"], kind)), envs())
        f = cx.meth1(kind, "zero_share")
        both(cx, f, "zero share of %s" % kind, cx.run(f).ret, kind, ZERO, ZERO)
    for name in ("double", "double_in_place"):
        f = cx.meth1(RF, name)
        r = cx.run(f)
        a, b = parts(cx, r.args["#0"], RF)
        got = r.after("#0") if name.endswith("place") else r.ret
        both(cx, f, "%s doubles both components" % name, got, RF, t.add(a, a), t.add(b, b))
    for name, op in (("xor_mask", OPS["BitXor"]), ("and_mask", OPS["BitAnd"])):
        for sfx in ("", "_assign"):
            f = cx.meth1(RU, name + sfx)
            r = cx.run(f)
            a, b = parts(cx, r.args["#0"], RU)
            got = r.after("#0") if sfx else r.ret
            def test(r=r, a=a, b=b, got=got, op=op):
                for seed in (1, 2, 3):
                    x, y, m = [v % (1 << 24) for v in (hnum(seed, "a"), hnum(seed, "b"), hnum(seed, "m"))]
                    E = Env(seed=seed, vals={a.args[0]: x, b.args[0]: y, r.args["#1"].args[0]: m}, bools=honest)
                    v = E.ev(got)
                    fs = {fn[0]: w for fn, w in zip(cx.p.adts[v.key]["variants"][0][1], v.f)}
                    if (E.num(fs["a"]), E.num(fs["b"])) != (op(x, m), op(y, m)):
                        return "a component is not the masked component"
                return None
            cx.decide(f, "%s masks both components" % (name + sfx), test)
    # ------------------------------------------------------------ trivial shares
    pid = adt_key(cx, "PartyID")
    for name in ("promote_from_trivial", "promote_from_trivial_with_scalar"):
        f = cx.meth1(RF, name)
        r = cx.run(f)
        def test(r=r, name=name):
            for seed in (1, 2, 3):
                val, scal = hnum(seed, "val"), hnum(seed, "scalar")
                outs = []
                for i in range(3):
                    E = Env(seed=seed, vals={"val": val, "scalar": scal, "id": Agg(pid, i, [])}, bools=honest)
                    v = E.ev(r.ret)
                    fs = {fn[0]: w for fn, w in zip(cx.p.adts[v.key]["variants"][0][1], v.f)}
                    outs.append((E.num(fs["a"]) % PRIME, E.num(fs["b"]) % PRIME))
                for i in range(3):
                    if outs[i][1] != outs[i - 1][0]:
                        return "the second component of party %d is not the first one of party %d" % (i, (i - 1) % 3)
                if sum(o[0] for o in outs) % PRIME != val:
                    return "the parties' components do not add up to the value"
            return None
        cx.decide(f, "%s makes a consistent sharing of the value" % name, test, "three parties")
    # ------------------------------------------------------------ party numbers
    for name, d in (("next", 1), ("prev", 2)):
        f = cx.meth1("PartyID", name)
        r = cx.run(f)
        def test(r=r, d=d):
            for i in range(3):
                E = Env(vals={"self": Agg(pid, i, [])}, bools=honest)
                v = E.ev(r.ret)
                if not isinstance(v, Agg) or v.var != (i + d) % 3:
                    return "%s of party %d is %s" % (name, i, v)
            return None
        cx.decide(f, "%s is the party %d further on the ring" % (name, d), test, "all three parties")
    n = 0
    for im in cx.p.impls:
        tr = (im["trait"] or "").split("::")[-1]
        if tr == "TryFrom" and peel(im["targs"][0])[0] == "adt" and peel(im["targs"][0])[1] == pid:
            f = cx.fn(im["items"]["try_from"][1])
            r = cx.run(f)
            arg = r.args["#0"].args[0]
            def test(r=r, arg=arg):
                for i in (0, 1, 2, 3, 4, 5, 127, 255):
                    E = Env(vals={arg: i}, bools=honest)
                    S = System(r, [0], lambda _: E).go()
                    if S.p[0].fail:
                        if i < 3:
                            return "party number %d is refused" % i
                        if S.p[0].fail[0] != "err":
                            return "party number %d panics" % i
                    else:
                        v = okval(E, E.ev(r.ret))
                        if i >= 3 or not isinstance(v, Agg) or v.var != i:
                            return "party number %d becomes %s" % (i, v)
                return None
            cx.decide(f, "exactly 0, 1 and 2 are party numbers", test, "0..5, 127, 255")
            n += 1
        if tr == "From" and len(im["targs"]) > 1 and peel(im["targs"][1])[0] == "adt" and peel(im["targs"][1])[1] == pid:
            f = cx.fn(im["items"]["from"][1])
            r = cx.run(f)
            arg = r.args["#0"].args[0]
            def test(r=r, arg=arg):
                for i in range(3):
                    E = Env(vals={arg: Agg(pid, i, [])}, bools=honest)
                    if E.size(E.ev(r.ret)) != i:
                        return "party %d has the number %s" % (i, E.ev(r.ret))
                return None
            cx.decide(f, "a party's number is its own", test, "all three parties")
            n += 1
    if n < 3:
        cx.bad("rep3::id", "conversions of party numbers enumerated", "only %d found" % n)

# ---------------------------------------------------------------- communication
def data_of(E, d):
    """payload of a sent message"""
    if isinstance(d, O) and d.org[0] == "app" and d.org[1] == "ser":
        return d.org[2][0]
    raise Undecided("message is no serialisation")

def R05(cx):
    """Rep3NetworkExt: who gets what from whom"""
    pid = adt_key(cx, "PartyID")
    from .shamir3 import tamper_rule
    def sysm(r, many, k, seed=1, to=None, frm=None, go=True):
        def mk_(i):
            vals, lens = {}, {}
            if many:
                lens["data"] = k
                for j in range(k):
                    vals["data[%d]" % j] = hnum("d", seed, i, j)
            else:
                vals["data"] = hnum("d", seed, i, 0)
            if to is not None:
                vals["to"] = Agg(pid, (i + to) % 3, [])
            if frm is not None:
                vals["from"] = Agg(pid, (i + frm) % 3, [])
            E = Env(seed=seed, vals=vals, lens=lens, deflen=3, bools=honest, appfn={"netid": lambda E, a, i=i: i})
            return E
        S = System(r, range(3), mk_)
        return S.go() if go else S
    def val_(E, v, many):
        return [E.num(x) for x in E.seq(v)] if many else E.num(v)
    def pair(v):
        if isinstance(v, Agg):
            return list(v.f)
        if isinstance(v, (tuple, list)):
            return list(v)
        raise Undecided("no pair: %r" % (v,))
    def datum(i, many, k, seed=1):
        return [hnum("d", seed, i, j) for j in range(k)] if many else hnum("d", seed, i, 0)
    exchange = (("reshare", False, lambda d: d(-1), None, None), ("reshare_many", True, lambda d: d(-1), None, None),
                ("broadcast", False, lambda d: [d(-1), d(1)], None, None), ("broadcast_many", True, lambda d: [d(-1), d(1)], None, None),
                ("send_and_recv", False, None, 1, 2), ("send_and_recv", False, None, 2, 1),
                ("send_and_recv_many", True, None, 1, 2), ("send_and_recv_many", True, None, 2, 1))
    for name, many, want, to, frm in exchange:
        f = cx.fn(RNET + name)
        r = cx.run(f)
        def test():
            for k in ((0, 1, 2, 4) if many else (1,)):
                for seed in (1, 2):
                    try:
                        S = sysm(r, many, k, seed, to, frm)
                    except Deadlock as e:
                        return str(e)
                    if S.failed():
                        return "party %d fails (%s at %s)" % (S.failed()[0][0], S.failed()[0][1][0], S.failed()[0][1][2])
                    u = S.unmatched()
                    if u:
                        return "%d messages of party %d to %d, %d of which are received" % (u[0][2], u[0][0], u[0][1], u[0][3])
                    for i in range(3):
                        E = S.p[i].E
                        v = okval(E, S.ret(i))
                        w = want(lambda d: datum((i + d) % 3, many, k, seed)) if want else datum((i + frm) % 3, many, k, seed)
                        got = [val_(E, x, many) for x in pair(v)] if name.startswith("broadcast") else val_(E, v, many)
                        if got != w:
                            return "party %d gets other data than it should (%s)" % (i, "%d elements" % k if many else "one element")
            return None
        who = "of the previous party" if name.startswith("resh") else "of the previous and the next party, in this order" if want else "of the named party, and sends to the named one"
        cx.decide(f, "every party gets the data %s" % who + (" (ring %s)" % ("forwards" if to == 1 else "backwards") if to else ""), test, "three parties composed")
        if not many:
            tamper_rule(cx, f, "%s refuses a message with another number of elements than one" % name + (" (ring %d)" % to if to else ""),
                        [("three parties", lambda: sysm(r, many, 1, 1, to, frm, go=False), 3)])
    # one-sided functions
    for name, many, dirs in (("send_next", False, (1,)), ("send_next_many", True, (1,)), ("send_prev", False, (2,)), ("send_prev_many", True, (2,)),
                             ("send_both_many", True, (1, 2)), ("send_to", False, None), ("send_many", True, None)):
        f = cx.fn(RNET + name)
        r = cx.run(f)
        def test():
            for to in ((None,) if dirs else (1, 2)):
                for k in ((0, 1, 3) if many else (1,)):
                    S = sysm(r, many, k, 1, to, None)
                    if S.failed():
                        return "party %d fails (%s at %s)" % (S.failed()[0][0], S.failed()[0][1][0], S.failed()[0][1][2])
                    for i in range(3):
                        p = S.p[i]
                        if any(x[0] != "send" for x in p.log):
                            return "party %d waits for a message" % i
                        got = sorted((x, val_(p.E, data_of(p.E, m), True)) for (net, x), l in p.sent.items() for m in l)
                        w = datum(i, many, k)
                        w = sorted(((i + d) % 3, w if many else [w]) for d in (dirs or (to,)))
                        if got != w:
                            return "party %d sends %s elements to %s, where %s to %s are due" % (i, [len(x[1]) for x in got], [x[0] for x in got], [len(x[1]) for x in w], [x[0] for x in w])
            return None
        cx.decide(f, "%s sends the data, once, to exactly the %s" % (name, "right parties" if dirs else "named party"), test, "three parties")
    for name, many, d in (("recv_next", False, 1), ("recv_next_many", True, 1), ("recv_prev", False, 2), ("recv_prev_many", True, 2), ("recv_from", False, None), ("recv_many", True, None)):
        f = cx.fn(RNET + name)
        r = cx.run(f)
        def run_(i, frm, k):
            """party i alone; the others' messages are lists of k numbers that name their sender"""
            E = Env(seed=1, vals={"from": Agg(pid, (i + (frm or 1)) % 3, [])}, bools=honest, appfn={"netid": lambda E, a: i})
            logs = []
            S = System(r, range(3), lambda j: E if j == i else Env(seed=9, bools=honest))
            def fetch(p, net, who, n):
                logs.append((who, n))
                return [hnum("m", who, n, j) for j in range(k)]
            S.fetch = fetch
            for kk in ("deseru", "deser", "deserc", "desercu"):
                E.appfn[kk] = lambda E, a: a[0]
            p = S.p[i]
            while not p.done:
                S.advance(p)
            return S, p, logs
        def test():
            for frm in ((None,) if d else (1, 2)):
                for i in range(3):
                    who = (i + (d or frm)) % 3
                    for k in ((0, 1, 3) if many else (1,)):
                        S, p, logs = run_(i, frm, k)
                        if p.fail:
                            return "party %d fails (%s at %s)" % (i, p.fail[0], p.fail[2])
                        if [x for x in p.log if x[0] == "send"]:
                            return "party %d sends" % i
                        if [x[2] for x in p.log] != [who]:
                            return "party %d receives from %s instead of %d" % (i, [x[2] for x in p.log], who)
                        got = val_(p.E, okval(p.E, S.ret(i)), many)
                        w = [hnum("m", who, 0, j) for j in range(k)]
                        if got != (w if many else w[0]):
                            return "party %d gets other data than was sent" % i
                    if not many:
                        for k in (0, 2, 5):
                            S, p, logs = run_(i, frm, k)
                            if not p.fail:
                                return "party %d accepts %d elements for one" % (i, k)
                            if p.fail[0] != "err":
                                return "party %d panics on %d elements" % (i, k)
            return None
        cx.decide(f, "%s gives what the %s sent%s" % (name, "right party" if d else "named party", "" if many else ", and refuses another number of elements than one"), test, "each party alone, arbitrary senders")
