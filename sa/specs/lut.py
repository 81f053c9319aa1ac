"""L01: plain lookup tables."""
from .common import *
from .ring import leaf, nint, failing

def L01(cx):
    """plain lookup tables: an entry is addressed by the integer the index stands for, and by nothing else"""
    entries = lambda n: [hnum("entry", i) for i in range(n)]
    def places(cx, n):
        """(limbs of the index, the entry it stands for)"""
        for L in (1, 4, 6):
            for k in list(range(n)) + [n, n + 1, 2 * n + 3, 1 << 40]:
                yield [k] + [0] * (L - 1), k if k < n else None
                if L > 2:
                    for h in ([7, 7] + [0] * (L - 3), [0] * (L - 3) + [5, 5], [1, 2, 3] + [0] * (L - 4), [PRIME - 1, 1] + [0] * (L - 3)):
                        yield [k] + h, None
                for j in range(1, L):
                    yield [k] + [1 + (j + k) % 3 if i == j else 0 for i in range(1, L)], None
    for ty in ("PlainLookupTableProvider", "PlainCurveLookupTableProvider"):
        F = lambda n: cx.meth1(ty, n, trait="LookupTableProvider")
        for name in ("init_private", "init_public"):
            f = F(name)
            r = cx.run(f, as_=("self", "values"))
            def test():
                for n in (0, 1, 5):
                    E = Env(vals={leaf(r.args["values"]): entries(n)}, bools=honest)
                    if failing(E, r.ev):
                        return "fails for %d values" % n
                    if [nint(E, x) for x in E.seq(E.ev(r.ret))] != entries(n):
                        return "the table of %d values has other entries" % n
            cx.decide(f, "the table has the given values, in order", test, "0, 1 and 5 values")
        f = F("get_from_lut")
        r = cx.run(f, as_=("self", "index", "lut"))
        def test():
            for n in (0, 1, 5):
                for limbs, k in places(cx, n):
                    E = Env(vals={leaf(r.args["index"]): limbs, leaf(r.args["lut"]): entries(n)}, bools=honest)
                    S = failing(E, r.ev)
                    if k is None:
                        if not S:
                            return "index %s is read from a table of %d entries" % (limbs, n)
                        continue
                    if S:
                        return "index %s of a table of %d entries fails (%s)" % (limbs, n, S)
                    if nint(E, okval(E, E.ev(r.ret))) != entries(n)[k]:
                        return "index %d reads another entry of %d" % (k, n)
        cx.decide(f, "reading gives the entry the index stands for; an index beyond the table fails", test, "0, 1, 5 entries; field elements of 1, 4, 6 limbs, every limb non-zero in turn")
        f = F("write_to_lut")
        w = cx.run(f, as_=("self", "index", "value", "lut"))
        def test():
            for n in (0, 1, 5):
                for limbs, k in places(cx, n):
                    E = Env(vals={leaf(w.args["index"]): limbs, leaf(w.args["lut"]): entries(n), leaf(w.args["value"]): hnum("new")}, bools=honest)
                    S = failing(E, w.ev)
                    if k is None:
                        if not S:
                            return "index %s is written to a table of %d entries" % (limbs, n)
                        continue
                    if S:
                        return "index %s of a table of %d entries fails (%s)" % (limbs, n, S)
                    want = entries(n)
                    want[k] = hnum("new")
                    if [nint(E, x) for x in E.seq(E.ev(w.after("lut")))] != want:
                        return "writing index %d does not change exactly that entry of %d" % (k, n)
        cx.decide(f, "writing changes exactly the entry the index stands for; an index beyond the table fails", test, "0, 1, 5 entries; field elements of 1, 4, 6 limbs, every limb non-zero in turn")
        f = F("get_lut_len")
        l = cx.run(f, as_=("lut",))
        def test():
            for n in (0, 1, 5):
                E = Env(vals={leaf(l.args["lut"]): entries(n)}, bools=honest)
                if failing(E, l.ev) or nint(E, E.ev(l.ret)) != n:
                    return "a table of %d entries has another length" % n
        cx.decide(f, "the length is the number of entries", test, "0, 1 and 5 entries")
        f = F("get_public_lut")
        p = cx.run(f, as_=("lut",))
        def test():
            for n in (0, 1, 5):
                E = Env(vals={leaf(p.args["lut"]): entries(n)}, bools=honest)
                if failing(E, p.ev) or [nint(E, x) for x in E.seq(okval(E, E.ev(p.ret)))] != entries(n):
                    return "a table of %d entries is given with other entries" % n
        cx.decide(f, "the public table has the entries stored", test, "0, 1 and 5 entries")
