"""Composition of one summary with itself: n parties, each under its own interpretation, whose receive terms denote what the summaries of
the other parties send.  Decides properties of the whole protocol (agreement, degrees, matching of sends and receives, absence of waiting
cycles) from the communication terms of the summaries."""
from .evalt import O, Agg, Undecided
from .terms import T

class Deadlock(Exception):
    pass

class Party:
    def __init__(self, i, E, gen):
        self.i, self.E, self.gen = i, E, gen
        self.sent, self.taken, self.log = {}, {}, []
        self.fail, self.done, self.busy = None, False, False
        self.early = set()

def unser(E, args):
    v = args[0]
    if isinstance(v, O) and v.org[0] == "app" and v.org[1] == "ser":
        return v.org[2][0]
    return None

class System:
    def __init__(self, run, parties, mkenv, ev=None):
        """run: Run (or function party -> Run); mkenv: party -> Env"""
        self.p = {}
        self.tamper = None
        for i in parties:
            E = mkenv(i)
            r = run(i) if callable(run) else run
            E.appfn = dict(E.appfn)
            E.appfn["msg"] = lambda E, a, i=i: self.msg(i, a)
            for k in ("deseru", "deser", "deserc", "desercu"):
                E.appfn.setdefault(k, unser)
            E.run = r
            self.p[i] = Party(i, E, None)
            self.p[i].gen = self.steps(self.p[i], ev if ev is not None else r.ev, {})
    def key(self, E, net):
        return E.dig(net)
    def steps(self, p, evs, b):
        E = p.E
        for e in evs:
            k = e[0]
            if k == "send":
                yield ("send", E.ev(e[1], b), E.size(E.ev(e[2], b)), E.ev(e[3], b))
            elif k == "recv":
                yield ("recv", E.ev(e[1], b), E.size(E.ev(e[2], b)), E.size(E.ev(e[3], b)))
            elif k == "fail":
                if E.bool(E.ev(e[1], b)):
                    yield from self.steps(p, e[4], b)
                    if not p.fail:
                        p.fail = (e[2], e[3], e[5])
                    return
            elif k == "alt":
                yield from self.steps(p, e[2] if E.bool(E.ev(e[1], b)) else e[3], b)
                if p.fail:
                    return
            elif k == "loop":
                n = E.size(E.ev(e[1], b)) if e[1].op != "inf" else 0
                for i in range(max(0, n)):
                    yield from self.steps(p, e[3], {**b, ("v", e[2]): i})
                    if p.fail:
                        return
    def advance(self, p):
        """one communication action of party p"""
        if p.busy:
            raise Deadlock("parties wait for each other in a cycle through party %d" % p.i)
        p.busy = True
        try:
            a = next(p.gen, None)
            if a is None:
                p.done = True
                return
            k = (self.key(p.E, a[1]), a[2])
            p.log.append((a[0], p.E.dig(a[1]), a[2]))
            if a[0] == "send":
                if a[2] == p.i or a[2] not in self.p:
                    raise Deadlock("party %d sends to %d, which is no other party" % (p.i, a[2]))
                d = a[3]
                p.sent.setdefault(k, []).append(d)
            else:
                if a[2] == p.i or a[2] not in self.p:
                    raise Deadlock("party %d waits for a message of %d, which is no other party" % (p.i, a[2]))
                n = p.taken.get(k, 0)
                p.taken[k] = n + 1
                if k + (n,) in p.early:
                    p.early.discard(k + (n,))
                    p.E.memo.clear()
                self.fetch(p, k[0], a[2], n)
        finally:
            p.busy = False
    def fetch(self, p, net, frm, n):
        q = self.p[frm]
        k = (net, p.i)
        while len(q.sent.get(k, ())) <= n:
            if q.done:
                raise Deadlock("party %d waits for message %d of party %d, which never sends it%s" % (p.i, n, frm, " (it failed: %s)" % (q.fail,) if q.fail else ""))
            self.advance(q)
        return q.sent[k][n]
    def msg(self, i, a):
        net, frm, k = a
        E = self.p[i].E
        frm, k = E.size(frm), E.size(k)
        ch = (self.key(E, net), frm)
        if k >= self.p[i].taken.get(ch, 0):
            # not received (yet): the term sits in the branch of a gate that is not taken
            self.p[i].early.add(ch + (k,))
            return E.opaque("notyet", [frm, k])
        d = self.fetch(self.p[i], self.key(E, net), frm, k)
        if self.tamper:
            d = self.tamper(self, i, frm, k, d)
        return d
    def go(self):
        for p in self.p.values():
            while not p.done:
                self.advance(p)
        return self
    def unmatched(self):
        """(from, to, sent, received) of every channel whose counts differ"""
        out = []
        for p in self.p.values():
            for (net, to), l in p.sent.items():
                n = self.p[to].taken.get((net, p.i), 0)
                if n != len(l):
                    out.append((p.i, to, len(l), n))
        return out
    def ret(self, i, what=None):
        p = self.p[i]
        return p.E.ev(what(p.E.run) if callable(what) else what if what is not None else p.E.run.ret)
    def failed(self):
        return [(p.i, p.fail) for p in self.p.values() if p.fail]
