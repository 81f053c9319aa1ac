"""I01, I02: inputs and witnesses on their way from their owner to the parties."""
import re
from .common import *
from .shamir2 import root, CASES
from ..evalt import Agg, O

CT = "co_circom_types::"
OPT_, RES_ = "core::option::Option", "core::result::Result"
def some_(x):
    return Agg(OPT_, 1, [x])
def none_():
    return Agg(OPT_, 0, [])
def ok_(x):
    return Agg(RES_, 0, [x])
def err_():
    return Agg(RES_, 1, [Agg("err", 0, [])])

# ---------------------------------------------------------------- JSON values, strings and ordered maps of an interpretation
def J(x):
    """a JSON value"""
    k = "null" if x is None else "bool" if isinstance(x, bool) else "str" if isinstance(x, str) else "arr" if isinstance(x, list) else "num" if isinstance(x, int) else "obj"
    return Agg("json", ("null", "bool", "num", "str", "arr", "obj").index(k), [[J(y) for y in x]] if k == "arr" else [] if k in ("null", "obj") else [x])
class NoText(Exception):
    pass
KIND = {"null": 0, "boolean": 1, "number": 2, "string": 3, "array": 4, "object": 5}
def text(E, v):
    if type(v) is str:
        return v
    if isinstance(v, Agg) and len(v.f) == 1:
        return text(E, v.f[0])
    if isinstance(v, list) and all(type(x) is int and 0 <= x < 256 for x in v):
        return bytes(v).decode("latin1")
    raise NoText()
def pat(v):
    """a pattern argument: text or a character"""
    return chr(v) if type(v) is int else v if type(v) is str else None
def number(s, radix):
    """what reading an unsigned number gives (None: an error)"""
    if not s:
        return None
    try:
        if not all(c in "0123456789abcdefABCDEF" for c in s):
            return None
        return int(s, radix)
    except ValueError:
        return None
def unfmt(pieces, args):
    """text of a format template: 0xc0 stands for the next argument, other bytes give the length of the literal that follows"""
    s = pieces.org[1] if isinstance(pieces, O) and pieces.org[0] == "sym" else str(pieces)
    m = re.match(r'^c:b"(.*)"$', s, re.S)
    if not m:
        return None
    raw = bytes(m.group(1), "utf8").decode("unicode_escape").encode("latin1")
    out, i, k = "", 0, 0
    while i < len(raw):
        c = raw[i]
        i += 1
        if c == 0:
            break
        if c == 0xc0:
            if k >= len(args):
                return None
            out += str(args[k])
            k += 1
        elif c < 0x80:
            out += raw[i:i + c].decode("utf8")
            i += c
        else:
            return None
    return out if k == len(args) and i == len(raw) else None

class Apps(dict):
    """meaning of the library calls met while inputs are parsed"""
    def __init__(self, rec):
        dict.__init__(self, {"": None})
        self.rec = rec
    def get(self, name, d=None):
        f = getattr(self, "x_" + re.sub(r"\W+", "_", name.split("<")[0].split("!")[0]), None) or self.pre(name)
        def g(E, a):
            try:
                return f(E, a)
            except NoText:
                # an unselected alternative of a value
                return E.bot()
        return g if f else None
    def pre(self, name):
        n = name.split(":")[-1]
        if name.startswith(("default:BTreeMap", "BTreeMap::new", "default:HashMap")):
            return lambda E, a: []
        if name.startswith("const:") and n == "MODULUS":
            return lambda E, a: MOD
        if name.startswith("fits:"):
            return lambda E, a: True
        m = re.match(r"^Value::is_(null|boolean|number|string|array|object)$", name)
        if m:
            return lambda E, a: jsonv(a[0]).var == KIND[m.group(1)]
        m = re.match(r"^Value::as_(str|bool|array)$", name)
        if m:
            k = {"str": 3, "bool": 1, "array": 4}[m.group(1)]
            return lambda E, a: some_(jsonv(a[0]).f[0]) if jsonv(a[0]).var == k else none_()
        if name in self.rec:
            return self.rec[name]
        return None
    def x_str_strip_prefix(self, E, a):
        s, p = text(E, a[0]), pat(a[1])
        return None if p is None else some_(s[len(p):]) if s.startswith(p) else none_()
    def x_str_strip_suffix(self, E, a):
        s, p = text(E, a[0]), pat(a[1])
        return None if p is None else some_(s[:len(s) - len(p)]) if s.endswith(p) else none_()
    def x_str_starts_with(self, E, a):
        return None if pat(a[1]) is None else text(E, a[0]).startswith(pat(a[1]))
    def x_str_ends_with(self, E, a):
        return None if pat(a[1]) is None else text(E, a[0]).endswith(pat(a[1]))
    def x_str_contains(self, E, a):
        return None if pat(a[1]) is None else pat(a[1]) in text(E, a[0])
    def x_str_trim_start_matches(self, E, a):
        s, p = text(E, a[0]), pat(a[1])
        if p is None:
            return None
        while p and s.startswith(p):
            s = s[len(p):]
        return s
    def x_str_trim_end_matches(self, E, a):
        s, p = text(E, a[0]), pat(a[1])
        if p is None:
            return None
        while p and s.endswith(p):
            s = s[:-len(p)]
        return s
    def x_str_trim_matches(self, E, a):
        return self.x_str_trim_start_matches(E, [self.x_str_trim_end_matches(E, a), a[1]])
    def x_str_replace(self, E, a):
        return None if pat(a[1]) is None else text(E, a[0]).replace(pat(a[1]), pat(a[2]))
    def x_str_trim(self, E, a):
        return text(E, a[0]).strip()
    def x_str_to_lowercase(self, E, a):
        return text(E, a[0]).lower()
    x_str_to_ascii_lowercase = x_str_to_lowercase
    def x_str_is_empty(self, E, a):
        return text(E, a[0]) == ""
    def x_str_split_once(self, E, a):
        s, p = text(E, a[0]), pat(a[1])
        return None if p is None else none_() if p not in s else some_(Agg("tup", 0, list(s.split(p, 1))))
    def x_str_parse(self, E, a):
        n = number(text(E, a[0]), 10)
        return err_() if n is None or text(E, a[0]) != "0" and text(E, a[0])[0] == "0" else ok_(n % MOD)
    def x_FromStr_from_str(self, E, a):
        return self.x_str_parse(E, a)
    def x_Num_from_str_radix(self, E, a):
        n = number(text(E, a[0]), E.num(a[1]))
        return err_() if n is None else ok_(n)
    def x_BigUint_parse_bytes(self, E, a):
        n = number(text(E, a[0]), E.num(a[1]))
        return none_() if n is None else some_(n)
    def x_fmt(self, E, a):
        args = []
        for x in a[1] if len(a) > 1 and isinstance(a[1], list) else [None]:
            if type(x) not in (int, str):
                return None
            args.append(x)
        return unfmt(a[0], args)
    def x_BTreeMap_insert(self, E, a):
        k = a[1]
        if type(k) is not str:
            raise Undecided("map key %r" % (k,))
        return sorted([e for e in E.seq(a[0]) if e.f[0] != k] + [Agg("tup", 0, [k, a[2]])], key=lambda e: e.f[0])
    def x_BTreeMap_contains_key(self, E, a):
        return any(e.f[0] == a[1] for e in E.seq(a[0]))
    def x_BTreeMap_get(self, E, a):
        r = [e.f[1] for e in E.seq(a[0]) if e.f[0] == a[1]]
        return some_(r[0]) if r else none_()
    def x_BTreeMap_len(self, E, a):
        return len(E.seq(a[0]))
    def x_BTreeMap_from(self, E, a):
        return self.x_collect_BTreeMap(E, a)
    def x_collect_BTreeMap(self, E, a):
        m = []
        for e in E.seq(a[0]):
            m = self.x_BTreeMap_insert(E, [m, e.f[0], e.f[1]])
        return m
MOD = 1000003          # the field order under which numbers are read
def jsonv(v):
    if isinstance(v, Agg) and v.key == "json":
        return v
    raise NoText()

def fmt_models():
    """text with arguments, kept as such"""
    def arg(it, fr, st, a, args, loc):
        return it.deref_all(st, args[0])
    def new(it, fr, st, a, args, loc):
        return mk("app", "fmt", it.deref_all(st, args[0]), it.deref_all(st, args[1]))
    def keep(it, fr, st, a, args, loc):
        return args[0]
    return {"core::fmt::rt::{impl#0}::new_display": arg, "core::fmt::{impl#4}::new": new, "alloc::fmt::format": keep}

# ---------------------------------------------------------------- reference meaning of inputs
def ref_field(x):
    """field element of a scalar input, or None"""
    if isinstance(x, bool) or not isinstance(x, str):
        return None
    neg, s = (True, x[1:]) if x.startswith("-") else (False, x)
    if s.startswith("0x"):
        n = number(s[2:], 16)
    else:
        n = number(s, 10)
        if n is not None and s != "0" and s[0] == "0":
            n = None
    return None if n is None else (-(n % MOD) if neg else n % MOD)
def ref_scalar(x):
    return int(x) if isinstance(x, bool) else ref_field(x)
def ref_array(x):
    """flattened elements ('?' gives None), or False where some element is malformed"""
    out = []
    for y in x:
        if isinstance(y, list):
            z = ref_array(y)
            if z is False:
                return False
            out += z
        elif y == "?" and isinstance(y, str):
            out.append(None)
        else:
            z = ref_scalar(y)
            if z is None:
                return False
            out.append(z)
    return out
def ref_split(inp, public):
    """({key: value} public, secret), or None where something is malformed"""
    pub, sec = {}, {}
    for name, x in inp:
        if isinstance(x, list):
            z = ref_array(x)
            if z is False:
                return None
            e = {"%s[%d]" % (name, i): v for i, v in enumerate(z) if v is not None}
        else:
            z = ref_scalar(x)
            if z is None:
                return None
            e = {name: z}
        (pub if name in public else sec).update(e)
    return pub, sec
def py(j):
    k = j.var
    return None if k == 0 else [py(y) for y in j.f[0]] if k == 4 else {} if k == 5 else j.f[0]
def rec_array(E, a):
    z = ref_array(py(jsonv(a[0])))
    return err_() if z is False else ok_([none_() if v is None else some_(v) for v in z])

def value_fns(cx):
    """functions of the crate that turn one JSON value into a list of field elements"""
    out = []
    for f in cx.p.fns.values():
        if f.key.startswith(CT) and f.body and f.body["argc"] == 1 and "::{" not in f.key:
            ty = f.body["tys"][1]
            while ty[0] == "ref":
                ty = ty[1]
            if ty[0] == "adt" and ty[1].endswith("value::Value"):
                out.append(f)
    return out
def returns_list(f):
    s = tystr(f.body["tys"][0])
    return "Vec<" in s and "Option<" in s
def contracts(cx, skip=None):
    """the list parser, by induction on the depth of the value"""
    ov, rec = fmt_models(), {}
    for f in value_fns(cx):
        if not returns_list(f):
            continue
        rec["rec:" + f.key] = rec_array
        def c(it, fr, st, a, args, loc, f=f, first=[f.key == skip]):
            if first[0]:
                first[0] = False
                return NotImplemented
            return mk("app", "rec:" + f.key, it.deref_all(st, args[0]))
        ov[f.key] = c
    return ov, rec

SCALARS = ["0", "1", "7", "12345", "-7", "-0", "0x1f", "-0x1f", "0xABcd", "0x%x" % MOD, "0x%x" % (MOD + 5), "-0x%x" % (3 * MOD + 3), "0x%x" % (MOD - 1), "-0x%x" % (2 * MOD),
           "%d" % (MOD - 1), "%d" % MOD, "-%d" % (2 * MOD + 9), "0x0", "10", "-10", "0x10", "-0x10", True, False]
BADS = ["", "-", "abc", "12a", "0x", "-0x", "0xzz", "--3", "-0x-3", "x10", "?", 5, 0, None, {}, "1 2", "0x1g"]

# ---------------------------------------------------------------- I02
def I02(cx):
    """malformed inputs are errors, well-formed ones have the value they denote"""
    fns = value_fns(cx)
    ent = cx.fn(CT + "split_input_shamir")
    for f in fns:
        ov, rec = contracts(cx, f.key)
        pn = f.body["names"][0][0]
        r = cx.run(f, ov=ov, as_=("val",))
        def env(x):
            return Env(vals={"val": J(x)}, appfn=Apps(rec), bools=honest)
        def table(good, want, rule, fn=f, r=r, bads=()):
            def test():
                for x in good:
                    E = env(x)
                    w = E.fails(r.ev)
                    if w:
                        return "%r is rejected" % (x,)
                    got = okval(E, E.ev(r.ret)) if r.ret is not None else None
                    if got is not None and not reduced(E, got):
                        return "%r is not reduced modulo the field order" % (x,)
                    if got is None or E.dig(norm(E, got)) != E.dig(norm(E, want(x))):
                        return "%r is read as another value" % (x,)
                for x in bads:
                    E = env(x)
                    w = E.fails(r.ev)
                    if w and w[0] == "panic" and w[2]:
                        return "%r panics" % (x,)
                    if not w and (r.ret is None or okval(E, E.ev(r.ret)) is not None):
                        return "%r is accepted" % (x,)
            cx.decide(fn, rule, test, "agrees with the reference on %d accepted and %d rejected values" % (len(good), len(bads)))
        if returns_list(f):
            arrs = [[], ["1"], ["1", "-2", "0x3"], [["1", "2"], ["3"]], ["1", [], "?", True], [[["4"]], False, "?", "?", "-0x5"], ["1", ["?", "2"], "3"]]
            table(arrs, lambda x: [none_() if v is None else some_(v) for v in ref_array(x)], "arrays flatten in order, '?' leaves a gap, any malformed element is an error",
                  bads=[["a"], ["1", ["x"]], [""], ["1", 5], [None], ["1", "?", "-"], [[], ["0xzz"]], ["12a", "1"], ["?1"], ["1", ["??"]], ["1?"]])
        else:
            name = f.key.split("::")[-1]
            bools = "Bool" in tystr(f.body["tys"][0]) or name.endswith("boolean")
            if bools:
                table([True, False], lambda x: int(x), "booleans are 1 and 0, anything else is an error", bads=["1", "true", 1, None, [], ""])
            else:
                sc = [x for x in SCALARS if isinstance(x, str)]
                table(sc, ref_field, "numbers denote their value modulo the field order, anything else is an error", bads=[x for x in BADS if x != {} or True] + [True, ["1"]])
    # the whole input
    ov, rec = contracts(cx)
    r = cx.run(ent, ov=ov, as_=("input", "public_inputs", "threshold", "num_parties"))
    def bad_inputs():
        for x in BADS + [["1", "x"], [["0xzz"]], ["1", None]]:
            for pub in ([], ["a"]):
                yield [("a", x), ("b", "1")], pub
                yield [("b", "1"), ("c", True), ("a", x)], pub
    def test():
        n = 0
        for inp, pub in bad_inputs():
            E = split_env(inp, pub, 3, 1, rec)
            w = E.fails(r.ev)
            n += 1
            if w and w[0] == "panic":
                return "panics on %r" % (inp,)
            if not w and okval(E, E.ev(r.ret)) is not None:
                return "accepts the malformed input %r" % (inp,)
    cx.decide(ent, "a malformed input value is an error, whichever input it belongs to", test, "decided on all malformed values in two positions")
    # batches
    f = meth_of(cx, "unbatch")
    r2 = cx.run(f, as_=("self",))
    def want(np, nw, b):
        def cell(k, i, j):
            return hnum("cell", k, i, j)
        vals = {"self.public_inputs": [[cell(0, i, j) for j in range(b[0][i])] for i in range(np)], "self.witness": [[cell(1, i, j) for j in range(b[1][i])] for i in range(nw)]}
        return vals
    def test2():
        for np, nw, bs in ((1, 0, 1), (2, 3, 2), (3, 5, 4), (4, 1, 3), (1, 2, 5)):
            b = [[bs] * np, [bs] * nw]
            v = want(np, nw, b)
            E = Env(vals=v, bools=honest)
            if E.fails(r2.ev):
                return "a consistent batch of %d is rejected" % bs
            got = E.seq(E.ev(r2.ret))
            if len(got) != bs:
                return "a batch of %d gives %d witnesses" % (bs, len(got))
            for j, w in enumerate(got):
                pi, wi = fields(cx, w, "public_inputs"), fields(cx, w, "witness")
                if E.dig(pi) != E.dig([x[j] for x in v["self.public_inputs"]]) or E.dig(wi) != E.dig([x[j] for x in v["self.witness"]]):
                    return "element %d of a batch does not get its own values in order" % j
            for side, n in ((0, np), (1, nw)):
                for i in range(n):
                    for d in (-1, 1):
                        if side == 0 and i == 0 or bs + d < 0:
                            continue
                        b2 = [list(b[0]), list(b[1])]
                        b2[side][i] += d
                        E = Env(vals=want(np, nw, b2), bools=honest)
                        if not E.fails(r2.ev):
                            return "a batch with %d values where %d are expected is accepted" % (bs + d, bs)
        E = Env(vals={"self.public_inputs": [], "self.witness": []}, bools=honest)
        if not E.fails(r2.ev):
            return "an empty batch is accepted"
    cx.decide(f, "a batch is split element by element and inconsistent batches are rejected", test2, "decided for batches of up to 5")
    f = meth_of(cx, "public_inputs_for_verify")
    r3 = cx.run(f, as_=("self",))
    def envs3():
        for n in (1, 2, 3, 5, 8):
            yield Env(seed=n, lens={"self.public_inputs": n}, bools=honest)
    cx.agree(f, "the verifier gets every public input but the constant one, in order", r3.ret,
             lambda E: E.seq(E.sym("self.public_inputs"))[1:], envs3, r3.ev)

def reduced(E, v):
    if isinstance(v, list):
        return all(reduced(E, x) for x in v)
    if isinstance(v, Agg):
        return all(reduced(E, x) for x in v.f)
    return -MOD < E.sint(v) < MOD
def norm(E, v):
    if isinstance(v, list):
        return [norm(E, x) for x in v]
    if isinstance(v, Agg) and v.key == OPT_:
        return Agg(OPT_, v.var, [norm(E, x) for x in v.f])
    if type(v) in (int, bool) or isinstance(v, O):
        return E.sint(v) % MOD
    return v
def fields(cx, v, name):
    a = cx.p.adts[v.key]["variants"][v.var][1]
    for i, x in enumerate(a):
        if x[0] == name:
            return v.f[i]
    raise Undecided("field %s of %s" % (name, v.key))
def meth_of(cx, name):
    r = [f for f in cx.p.fns.values() if f.key.startswith(CT) and f.key.endswith("::" + name)]
    if len(r) != 1:
        raise Missing(CT + name)
    return cx.fn(r[0].key)

# ---------------------------------------------------------------- I01
def split_env(inp, pub, n, th, rec, delta=None, log=None, seed=1):
    def draw(E, a):
        k = E.dig(a)
        if log is not None and k not in log:
            log[k] = root(a[0])
        return (hnum("draw", seed, k) + (hnum("delta") if k == delta else 0)) % PRIME
    A = Apps(rec)
    A.x_draw = draw
    return Env(seed=seed, vals={"input": [Agg("tup", 0, [k, J(x)]) for k, x in inp], "public_inputs": list(pub), "threshold": th, "num_parties": n}, appfn=A, bools=honest)

def fresh_rows(run, secrets, n, th, rngok):
    """run(delta, log) -> shares of every secret (rows of n numbers); None or what is wrong with them as Shamir sharings of the secrets"""
    log = {}
    rows = run(None, log)
    if isinstance(rows, str):
        return rows
    if len(rows) != len(secrets):
        return "gives shares of %d values for %d secrets" % (len(rows), len(secrets))
    base = []
    for ys, s in zip(rows, secrets):
        if len(ys) != n:
            return "does not give one share to each of %d parties" % n
        cs = poly_coeffs(list(range(1, n + 1)), ys)
        if cs[0] != s % PRIME:
            return "the shares do not reconstruct to the secret (%d parties, degree %d)" % (n, th)
        if any(cs[th + 1:]):
            return "the sharing polynomial has a degree above %d" % th
        base.append(cs[1:th + 1])
    for r in log.values():
        w = rngok(r)
        if w:
            return w
    jac = []
    for d in log:
        r2 = run(d, None)
        row = []
        for ys, b in zip(r2, base):
            cs = poly_coeffs(list(range(1, n + 1)), ys)
            row += [(x - y) % PRIME for x, y in zip(cs[1:th + 1], b)]
        jac.append(row)
    want = th * len(rows)
    if want and (not jac or rank(jac) < want):
        return "%d coefficients depend on only %d independent draws (%d parties, degree %d)" % (want, rank(jac) if jac else 0, n, th)

def I01(cx):
    """every secret value leaves as a fresh Shamir sharing and nothing else"""
    f = meth_of(cx, "share_shamir")
    r = cx.run(f, as_=("witness", "num_pub_inputs", "degree", "num_parties", "rng"))
    def env(L, np, n, th, delta=None, log=None):
        def draw(E, a):
            k = E.dig(a)
            if log is not None and k not in log:
                log[k] = root(a[0])
            return (hnum("draw", n, th, k) + (hnum("delta") if k == delta else 0)) % PRIME
        return Env(seed=L + 7 * np, vals={"num_pub_inputs": np, "degree": th, "num_parties": n, "witness.values": [hnum("w", L, j) for j in range(L)]}, appfn={"draw": draw}, bools=honest)
    def split(E, L, np, n):
        if E.fails(r.ev):
            return "fails"
        ps = E.seq(E.ev(r.ret))
        if len(ps) != n:
            return "gives shares to %d of %d parties" % (len(ps), n)
        vals = E.seq(E.ev(field(sym("witness"), 0, "values")))
        rows = []
        for p in ps:
            pub = E.seq(fields(cx, p, "public_inputs"))
            if E.dig(pub) != E.dig(vals[:np]):
                return "the public part is not the first %d of %d values" % (np, L)
            rows.append([E.num(x) % PRIME for x in E.seq(fields(cx, p, "witness"))])
        if any(len(x) != L - np for x in rows):
            return "the shared part has %s of %d values" % ([len(x) for x in rows], L - np)
        return [list(x) for x in zip(*rows)]
    def test():
        for n, th in CASES[:5]:
            for L, np in ((5, 2), (4, 1), (3, 0), (3, 3), (1, 1), (6, 5)):
                vals = [hnum("w", L, j) for j in range(L)]
                w = fresh_rows(lambda d, log: split(env(L, np, n, th, d, log), L, np, n), vals[np:], n, th, lambda q: None if q == "rng" else "coefficients come from %s, not from the caller's generator" % q)
                if w:
                    return w + " (%d values, %d public)" % (L, np)
    cx.decide(f, "a witness is shared as: public values in the clear, every other value as a fresh sharing of degree t", test, "decided for %s and six splits" % (CASES[:5],))

    f2 = cx.fn(CT + "split_input_shamir")
    ov, rec = contracts(cx)
    r2 = cx.run(f2, ov=ov, as_=("input", "public_inputs", "threshold", "num_parties"))
    ty = [k for k, a in cx.p.adts.items() if k.split("::")[-1] == "ShamirInputType" and a.get("local")]
    if not ty:
        raise Missing("ShamirInputType")
    var = {v[0]: i for i, v in enumerate(cx.p.adts[ty[0]]["variants"])}
    inputs = [
        ([("a", "5"), ("b", ["1", "?", "-2", ["3"]]), ("c", True), ("in", "7"), ("in2", "9")], ["b", "in"]),
        ([("a", "5"), ("b", ["1", "2"]), ("c", False)], []),
        ([("x", "1"), ("xs", ["4", "4"]), ("sx", "-1")], ["x"]),
        ([("xs", ["4", "5"]), ("x", "2")], ["xs", "unused"]),
        ([("a", "5"), ("b", "6")], ["a", "b"]),
        ([("key", "0x11"), ("KEY", "3")], ["KEY"]),
        ([("dup", ["8", "8", True])], ["du", "dupe"]),
    ]
    def one(inp, pub, n, th):
        want = ref_split(inp, pub)
        keys = sorted(want[1])
        def run(delta, log):
            E = split_env(inp, pub, n, th, rec, delta, log)
            w = E.fails(r2.ev)
            if w:
                return "fails on a well-formed input"
            ps = okval(E, E.ev(r2.ret))
            ps = None if ps is None else E.seq(ps)
            if ps is None or len(ps) != n:
                return "does not give inputs to %d parties" % n
            cols = []
            for i, p in enumerate(ps):
                m = {}
                for e in E.seq(p):
                    m[e.f[0]] = e.f[1]
                if any(not isinstance(x, Agg) or x.key != ty[0] for x in m.values()):
                    raise Undecided("entries of the shared input")
                if set(m) != set(want[0]) | set(want[1]):
                    x = sorted(set(m) ^ (set(want[0]) | set(want[1])))[0]
                    return "party %d %s the entry %s" % (i, "gets" if x in m else "misses", x)
                for k in want[0]:
                    if m[k].var != var["Public"] or E.num(m[k].f[0]) % PRIME != want[0][k] % PRIME:
                        return "the public entry %s does not arrive in the clear with its value" % k
                for k in keys:
                    if m[k].var != var["Shared"]:
                        return "the secret entry %s leaves in the clear (public inputs: %s)" % (k, pub)
                cols.append([E.num(m[k].f[0]) % PRIME for k in keys])
            return [list(x) for x in zip(*cols)]
        return fresh_rows(run, [want[1][k] for k in keys], n, th, lambda q: "coefficients come from %s" % q if "const" in str(q) or "seed" in str(q) else None)
    def test2():
        for n, th in ((3, 1), (5, 2), (4, 1)):
            for inp, pub in inputs:
                w = one(inp, pub, n, th)
                if w:
                    return w
    cx.decide(f2, "an input is shared as: entries named public in the clear to all, every other entry as a fresh sharing", test2, "decided on %d inputs for 3 to 5 parties" % len(inputs))
    # reading the entries
    for name, val in (("is_public", None), ("as_public", "Public"), ("as_shared", "Shared")):
        f3 = meth_of(cx, name)
        for k, v in sorted(var.items()):
            x = sym("x")
            r3 = cx.run(f3, over={"#0": agg(ty[0], v, [x])})
            want = (lambda E, k=k: k == "Public") if val is None else (lambda E, k=k, val=val: some_(E.sym("x")) if k == val else none_())
            cx.agree(f3, "%s of a %s entry" % (name, k), r3.ret, want, envs(), r3.ev)
    for im in cx.p.impls:
        if im["trait"] and im["trait"].split("::")[-1] == "From" and im["self"][0] == "adt" and im["self"][1] == ty[0]:
            src = tystr(im["targs"][1]) if len(im["targs"]) > 1 else ""
            k = "Shared" if "Share" in src else "Public"
            f3 = cx.fn(im["items"]["from"][1])
            r3 = cx.run(f3)
            cx.same(f3, "a %s becomes a %s entry" % (src, k), r3.ret, agg(ty[0], var[k], [r3.args["#0"]]), envs())
