"""G03: serialisation adapters and the byte formats of ring integers."""
import re
from .common import *
from ..evalt import O, Agg
from ..evalt import Undecided

SC = "mpc_core::serde_compat::"
IR = "mpc_core::protocols::rep3_ring::ring::int_ring::"
RI = "mpc_core::protocols::rep3_ring::ring::ring_impl::"
RU = "mpc_core::uint::ruint_wrapper::"
WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}

class Bytes:
    """byte streams: a writer is the sequence written so far, a reader the sequence left; the bytes of an integer are fresh symbols"""
    def __init__(self, width):
        self.width, self.tab = width, {}
    def to(self, E, x, big=False):
        x = E.num(x)
        b = [hnum("byte", x, i) for i in range(self.width)]
        self.tab[tuple(b)] = x
        return b[::-1] if big else b
    def of(self, E, b, big=False):
        b = [E.num(y) for y in E.seq(b)]
        b = b[::-1] if big else b
        return self.tab[tuple(b)] if tuple(b) in self.tab else hnum("garbled", *b)
    def limbs(self, E, x):
        x = E.num(x)
        l = [hnum("limb", x, i) for i in range(8)]
        self.tab[("limbs",) + tuple(l)] = x
        return l
    def oflimbs(self, E, l):
        l = tuple(E.num(y) for y in E.seq(l))
        return self.tab[("limbs",) + l] if ("limbs",) + l in self.tab else hnum("garbled", *l)
    def app(self, okv_, errs):
        def n(E, a):
            return len(E.seq(a[1]))
        def rd(E, a):
            src, want = E.seq(a[0]), n(E, a)
            return src[:want] if len(src) >= want else [hnum("short", i) for i in range(want)]
        return {"num::to_le_bytes": lambda E, a: self.to(E, a[0]), "num::to_be_bytes": lambda E, a: self.to(E, a[0], True),
                "num::from_le_bytes": lambda E, a: self.of(E, a[0]), "num::from_be_bytes": lambda E, a: self.of(E, a[0], True),
                "num::to_ne_bytes": lambda E, a: self.to(E, a[0]), "num::from_ne_bytes": lambda E, a: self.of(E, a[0]),
                "Uint::as_limbs": lambda E, a: self.limbs(E, a[0]), "Uint::from_limbs": lambda E, a: self.oflimbs(E, a[0]),
                "Read::read_exact!0": lambda E, a: E.seq(a[0])[n(E, a):], "Read::read_exact!1": rd,
                "Write::write_all!0": lambda E, a: E.seq(a[0]) + [E.num(y) for y in E.seq(a[1])]}

def adapters(cx):
    se, de = cx.fn(SC + "ark_se"), cx.fn(SC + "ark_de")
    s, d = cx.run(se, as_=("a", "s")), cx.run(de, as_=("data",))
    def payload(r):
        return r.ret
    out = {}
    def find(x, pred, seen):
        if id(x) in seen or not isinstance(x, T):
            return
        seen.add(id(x))
        if pred(x):
            yield x
        for y in x.args:
            for z in (y if isinstance(y, tuple) else (y,)):
                yield from find(z, pred, seen)
    def ser():
        w = [x for x in find(s.ret, lambda x: x.op == "app" and str(x.args[0]).startswith("Serializer::serialize_"), set())]
        for k in s.ev:
            pass
        if not w:
            raise Undecided("no call of the serializer in the result")
        if len({id(x) for x in w}) > 1:
            raise Undecided("several calls of the serializer")
        b = w[0].args[2]
        form = "compressed" if b.op == "app" and b.args[0] == "cser" else "uncompressed" if b.op == "ser" else None
        if form is None or (b.args[1] if form == "compressed" else b.args[0]) .op != "sym" or "'a'" not in repr(b.args[-1].args) and str(b.args[-1]) != "a":
            return "does not store exactly the serialisation of the value"
        out["se"] = form
        out["how"] = w[0].args[0].split("::")[1]
        if not any(e[0] == "fail" for e in s.ev):
            return "does not report a failure of the serializer"
    def des():
        v = [x for x in find(d.ret, lambda x: x.op == "app" and str(x.args[0]).startswith("deser"), set())]
        if len(v) != 1:
            raise Undecided("no deserialisation in the result")
        nm, b = v[0].args[0], v[0].args[1]
        if nm not in ("deser", "deserc"):
            return "reads the stored bytes back without validation" if nm in ("deseru", "desercu") else "reads the stored bytes back in a mode that depends on something"
        if "se" in out and (nm == "deserc") != (out["se"] == "compressed"):
            return "reads the stored bytes as %scompressed, they are written %s" % ("" if nm == "deserc" else "un", out["se"])
        if b.op not in ("app", "okv") or "data" not in str(b):
            return "does not read the bytes that were stored"
        if b.op == "okv" and not (b.args[0].op == "app" and b.args[0].args[0] == "Deserialize::deserialize"):
            return "reads another form than the bytes that were stored"
        if sum(1 for e in d.ev if e[0] == "fail") < 2:
            return "does not report a failure of the deserialisation"
    cx.decide(se, "stores the whole serialisation of the value", ser)
    cx.decide(de, "reads back what ark_se stores, in the same mode and validated", des)

def ints(cx):
    """write and from_reader of every ring integer are inverse to each other and use exactly BYTES bytes"""
    pairs = {}
    for im in cx.p.impls:
        if im["trait"] and im["trait"].split("::")[-1] == "IntRing2k" and {"write", "from_reader"} <= set(im["items"]):
            pairs[str(im["self"])] = im
    if not pairs:
        raise Missing("IntRing2k")
    for _, im in sorted(pairs.items()):
        w, r = cx.p.fns.get(im["items"]["write"][1]), cx.p.fns.get(im["items"]["from_reader"][1])
        if w is None or r is None or not w.body or not r.body:
            raise Missing("IntRing2k::write")
        inverse(cx, im["self"], w, r, "ring integer")
def name_of(ty):
    return ty[1] if ty[0] in ("int", "uint", "prim") else ty[-1] if isinstance(ty[-1], str) else ty[1].split("::")[-1] if isinstance(ty[1], str) else str(ty)
def stream_after(cx, r, nm):
    return r.after(nm)
def inverse(cx, ty, w, r, what, wx=(), rx=(), g={}):
    nm = short_ty(ty)
    big = "RUint" in nm
    gen = {"BITS": ("const", "512"), "LIMBS": ("const", "8")} if big else {}
    size = 64 if big else 1 if nm == "Bit" else WIDTH.get(nm)
    if size is None:
        return
    gen.update(g)
    have = lambda f: {k: v for k, v in gen.items() if k in f.gen or "#" + k in f.gen}
    byref = ("ref", ("p", "?stream"), True)
    a = cx.run(w, g=dict(have(w), W=byref), as_=("self", "writer") + wx)
    b = cx.run(r, g=dict(have(r), R=byref), as_=("reader",) + rx)
    def test():
        B = Bytes(8 if big else size)
        for k in range(3) if nm != "Bit" else (0, 1):
            x = k if nm == "Bit" else hnum("value", nm, k)
            v = {"self": x, "self.0": x, "writer": [], "self.0.0": x}
            if nm == "Bit":
                v["self.0"] = v["self.0.0"] = bool(x)
            E = Env(seed=k, vals=v, deflen=8, bools=honest, appfn=B.app(None, None))
            f = E.fails(a.ev)
            if f:
                return "writing fails"
            out = [E.num(y) for y in E.seq(E.ev(written(a)))]
            if len(out) != size:
                return "writes %d bytes where the size is %d" % (len(out), size)
            E = Env(seed=k, vals={"reader": out + [17, 18]}, deflen=8, bools=honest, appfn=B.app(None, None))
            if E.fails(b.ev):
                return "reading back what was written fails"
            got = okval(E, E.ev(b.ret))
            for _ in range(3):
                if isinstance(got, Agg) and len(got.f) == 1:
                    got = got.f[0]
            got = int(E.bool(got)) if nm == "Bit" else E.num(got)
            if got != x:
                return "does not read back the value that was written"
            left = [E.num(y) for y in E.seq(E.ev(taken(b)))]
            if left != [17, 18]:
                return "reads %d bytes where %d were written" % (size + 2 - len(left), size)
        if nm == "Bit":
            for byte in (2, 3, 254, 255):
                E = Env(seed=1, vals={"reader": [byte]}, deflen=8, bools=honest, appfn=B.app(None, None))
                if not E.fails(b.ev):
                    return "takes the byte %d for a bit" % byte
    cx.decide(w, "%s %s reads back what it writes" % (what, nm), test)
def short_ty(ty):
    s = str(ty)
    m = re.findall(r"[A-Za-z_][A-Za-z0-9_]*", s)
    for n in ("Bit", "RUint"):
        if n in m:
            return n
    return next((x for x in m if x in WIDTH), s)
def written(r):
    return r.after("writer")
def taken(r):
    return r.after("reader")
def impls_of(cx, trait, owner):
    return [im for im in cx.p.impls if im["trait"] and im["trait"].split("::")[-1] == trait and im["self"][0] == "adt" and im["self"][1].split("::")[-1] == owner]
def whole(cx, what, owner, tys):
    """the CanonicalSerialize and CanonicalDeserialize instances of a type"""
    se, de = impls_of(cx, "CanonicalSerialize", owner), impls_of(cx, "CanonicalDeserialize", owner)
    if not se or not de:
        raise Missing("CanonicalSerialize for " + owner)
    w, r = cx.p.fns.get(se[0]["items"]["serialize_with_mode"][1]), cx.p.fns.get(de[0]["items"]["deserialize_with_mode"][1])
    z = cx.p.fns.get(se[0]["items"].get("serialized_size", (0, None))[1])
    for ty in tys:
        g = {"T": ty} if owner == "RingElement" else {}
        inverse(cx, ty, w, r, what, ("mode",), ("mode", "check"), g)
        if z is None or not z.body:
            continue
        nm = short_ty(ty)
        gen = dict(g, **({"BITS": ("const", "512"), "LIMBS": ("const", "8")} if nm == "RUint" else {}))
        q = cx.run(z, g={k: v for k, v in gen.items() if k in z.gen or "#" + k in z.gen}, as_=("self", "mode"))
        if q.ret.op == "app" and str(q.ret.args[0]).startswith("const:"):
            continue   # a literal constant has no MIR; its value shows in the length from_reader reads
        want = 64 if nm == "RUint" else 1 if nm == "Bit" else WIDTH[nm]
        def size():
            E = Env(seed=1, bools=honest)
            if E.num(E.ev(q.ret)) != want:
                return "announces another size than the %d bytes it writes" % want
        cx.decide(z, "announced size of %s %s" % (what, nm), size)
def G03(cx):
    """what is stored is read back unchanged and validated"""
    adapters(cx)
    ints(cx)
    tys = [im["self"] for im in cx.p.impls if im["trait"] and im["trait"].split("::")[-1] == "IntRing2k" and "write" in im["items"]]
    whole(cx, "ring element over", "RingElement", [t for t in tys if short_ty(t) != "RUint"])
    whole(cx, "integer", "RUint", [t for t in tys if short_ty(t) == "RUint"])
