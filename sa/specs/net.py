"""N01-N07: transports.  Rules over the path sets of sa/paths.py: every path of every method of every implementation of
`Network` (and of what the constructors spawn) is enumerated with the calls it makes and the outcomes it knows about."""
import re
from ..paths import Paths, St, Frame, subterms, show, base, lt, neg, num, RES, OPT, UNIT, POLL
from ..interp import Unsupported

SELF = ("sym", "self")

def root(v):
    while v and (v[0] in ("fld", "pay", "dc") or v[0] == "app" and v[1] in ("item", "elem", "out", "upd", "updelem", "index", "within", "iter", "into_iter", "iter_mut", "enumerate")):
        v = v[2] if v[0] == "app" else v[1]
    return v
def has(v, x):
    return any(y == x for y in subterms(v))
def mentions(v, x):
    """v carries x (not merely its length)"""
    st = [v]
    while st:
        y = st.pop()
        if y == x:
            return True
        if y and y[0] == "app" and y[1] in ("len", "is_empty"):
            continue
        st.extend(z for z in y if isinstance(z, tuple))
    return False
def isok(v):
    return v is not None and v[0] == "agg" and v[1] == RES and v[2] == 0
def iserr(v):
    return v is not None and v[0] == "agg" and v[1] == RES and v[2] == 1
def last(e):
    return e.p.split("::")[-1]
def payload(v):
    """(root result, [(variant, index)..]) of a chain of payloads"""
    ch = []
    while v[0] == "pay":
        ch.append((v[2], v[3]))
        v = v[1]
    return v, ch[::-1]
def fieldpath(v):
    """names of a field path on a parameter, or None"""
    p = []
    while v and v[0] == "fld":
        p.append(v[2])
        v = v[1]
    return (v, tuple(reversed(p))) if p and v and v[0] == "sym" else None
def adtof(ty):
    while ty and ty[0] == "ref":
        ty = ty[1]
    if ty and ty[0] == "adt" and ty[1].split("::")[-1] in ("Arc", "Box", "Rc", "Pin") and ty[2]:
        return adtof(ty[2][0])
    return ty[1] if ty and ty[0] == "adt" else None

class Types:
    """types of the values that appear on a path"""
    def __init__(self, o):
        self.t = {}
        for e in o.st.ev:
            if e.ty is None:
                continue
            ty = e.ty
            if e.p == "await" and ty[0] == "adt" and ty[1] == POLL:
                ty = ty[2][0]
            self.t[e.res] = ty
    def of(self, v):
        t = self.t.get(v)
        if t is not None:
            return t
        if v[0] == "pay":
            u = self.of(v[1])
            if u and u[0] == "adt" and v[3] == 0:
                if u[1] == RES:
                    return u[2][v[2]]
                if u[1] == OPT and v[2] == 1:
                    return u[2][0]
                if u[1] == POLL and v[2] == 0:
                    return u[2][0]
        if v[0] == "fld" and v[1]:
            u = self.of(v[1])
            if u and u[0] == "tup" and str(v[2]).isdigit() and int(v[2]) < len(u[1]):
                return u[1][int(v[2])]
        return None
    def isres(self, v):
        t = self.of(v)
        return t is not None and t[0] == "adt" and t[1] == RES

def failures(o):
    """results known to be errors on a path"""
    ty = Types(o)
    out = []
    for c, v in o.st.facts.items():
        if c[0] == "disc" and v == 1 and ty.isres(c[1]):
            out.append(c[1])
    out += [e.res for e in o.st.ev if e.p == "elapsed"]
    return out
def known(o, v):
    """'ok' / 'err' / None: what a path knows about a result value"""
    if isok(v):
        return "ok"
    if iserr(v):
        return "err"
    d = o.st.facts.get(("disc", v))
    return {0: "ok", 1: "err"}.get(d) if not isinstance(d, frozenset) else None
def dropped(o, allow=lambda e: False):
    """events whose Result nobody looked at"""
    ty = Types(o)
    used = [("disc", e.res) for e in ()]
    out = []
    for i, e in enumerate(o.st.ev):
        if not ty.isres(e.res) or allow(e):
            continue
        v = e.res
        while True:
            if ("disc", v) in o.st.facts:
                if o.st.facts[("disc", v)] == 0:
                    w = ("pay", v, 0, 0)
                    if ty.isres(w):
                        v = w
                        continue
                break
            if o.v is not None and has(o.v, v) or any(has(a, v) for q in o.st.ev[i + 1:] for a in q.args if q.p != "drop"):
                break
            if any(has(c, v) for c in o.st.facts):
                break
            out.append(e)
            break
    return out
def retry(o):
    """events of the iteration a 'loop' path has just gone round"""
    n = o.why[2] if o.kind == "loop" and o.why else 0
    return o.st.ev[n:]

class Net:
    """the transports of the program, with their paths"""
    def __init__(self, cx):
        self.cx, self.p = cx, cx.p
        self.X = Paths(cx.p)
        self.cache = {}
        self.tr = []
        for im in self.p.impls:
            if im["crate"] == "mpc_net" and im["trait"] and im["trait"].split("::")[-1] == "Network" and im["self"][0] == "adt":
                fs = {n: self.p.fns.get(it[1]) for n, it in im["items"].items() if it and it[0] == "it"}
                self.tr.append((im["self"][1], fs))
        if len(self.tr) < 6:
            from ..spec import Missing
            raise Missing("transports (implementations of Network in mpc_net): %d found" % len(self.tr))
    def outs(self, f, args=None, X=None):
        if args is None and f.body["argc"] == {"send": 3, "recv": 2}.get(f.key.split("::")[-1]):
            args = [SELF, TO, DATA] if f.body["argc"] == 3 else [SELF, FROM]
        k = (f.key, repr(args), id(X))
        if k not in self.cache:
            X = X or self.X
            X.n = 0
            self.cache[k] = X.run(f, args)
        self.cx.inlined |= X.inlined if X else self.X.inlined
        self.cx.external |= self.X.external
        self.cx.calls += sum(len(o.st.ev) for o in self.cache[k])
        return self.cache[k]
    def frame(self, f):
        fr = Frame()
        fr.fn, fr.body, fr.g, fr.cfg, fr.fid, fr.depth = f, None, (), None, next(self.X.fids), 0
        return fr
    def adt_name(self, k):
        return k.replace("mpc_net::", "")

# ---------------------------------------------------------------------- methods of a transport
TO, DATA, FROM = ("sym", "to"), ("sym", "data"), ("sym", "from")
def lenfacts(o, data):
    out = []
    for c, v in o.st.facts.items():
        if any(x and x[0] == "app" and x[1] in ("len", "is_empty") and x[2] == data for x in subterms(c)):
            out.append((c, v))
    return out
def limit_of(c, data):
    """M and polarity when the condition is  len(data) > M  (True) or its negation (False), M a field of self"""
    L = ("app", "len", data)
    for x in subterms(c):
        fp = fieldpath(x)
        if fp and fp[0] == SELF:
            n = lt(x, L)
            if n == c:
                return x, True
            if n == ("not", c):
                return x, False
    return None, None
def lookup(o, fld_of, key):
    """events that look `key` up in a field of self"""
    return [e for e in o.st.ev if last(e) in ("get", "index") and len(e.args) == 2 and fieldpath(e.args[0]) and fieldpath(e.args[0])[0] == SELF]
def poison(o):
    return o.why and any(last(e) in ("lock", "read", "write") and o.v is not None and has(o.v, e.res) for e in o.st.ev)

def send_rules(N, rep, tk, f):
    name = N.adt_name(tk)
    outs = N.outs(f, [SELF, TO, DATA])
    local = None
    M = set()
    maps = set()
    for o in outs:
        if o.kind == "panic":
            if not poison(o):
                rep("N03", f, "no panic on send", "send can panic: %s" % o.why)
            continue
        if o.kind == "loop":
            rep.unsure("N03", f, "send contains a loop that is not understood")
            continue
        hand = [e for e in o.st.ev if any(mentions(a, DATA) for a in e.args) and e.p != "drop"]
        fa = [e for e in o.st.ev if last(e).startswith("fetch_") or last(e) == "store" and e.p != "store"]
        lf = lenfacts(o, DATA)
        over = None
        for c, v in lf:
            m, pol = limit_of(c, DATA)
            if m is None:
                rep("N01", f, "limit is len > max", "send decides on the length of the message by something else than whether it exceeds the maximum frame length: %s" % show(c))
                continue
            M.add(m)
            over = (v == pol)
        fails = failures(o)
        kn = "ok" if isok(o.v) else "err" if iserr(o.v) else None
        if hand:
            if over is None:
                rep.nolimit(tk, f)
            elif over:
                rep("N01", f, "over-long message not transmitted", "a message longer than the maximum is handed over (%s)" % hand[0])
        if over:
            if kn != "err":
                rep("N01", f, "over-long message refused", "sending a message longer than the maximum does not return an error")
            if fa:
                rep("N03", f, "counter counts transmitted bytes", "the sent-bytes counter grows for a message that is refused")
        if not hand:
            if kn == "ok" or kn is None and not any(has(o.v, e.res) for e in o.st.ev):
                rep("N02", f, "success means handed over", "send returns success on a path that transmits nothing")
            if fa and not over:
                rep("N03", f, "counter counts transmitted bytes", "the sent-bytes counter grows on a path that transmits nothing")
            continue
        if len(hand) > 1:
            rep("N03", f, "transmitted once", "the message is handed over %d times: %s" % (len(hand), ", ".join(map(str, hand))))
        e = hand[0]
        lk = lookup(o, None, TO)
        ch = e.args[0]
        r, chain = payload(strip(ch))
        src = [q for q in lk if q.res == root(ch)]
        if not src:
            rep("N03", f, "channel of the addressed party", "the message goes to %s, which is not an entry looked up by the party id" % show(ch))
        else:
            q = src[0]
            if q.args[1] != TO:
                rep("N03", f, "channel of the addressed party", "the message goes to the entry of %s instead of the addressed party" % show(q.args[1]))
            maps.add(q.args[0])
            cnt = [x for x in fa if x.k >= 0]
            if len(cnt) != 1 or last(cnt[0]) != "fetch_add" or cnt[0].args[1] != ("app", "len", DATA) or root(cnt[0].args[0]) != q.res:
                rep("N03", f, "sent counter", "the sent-bytes counter of the addressed party does not grow by exactly the length of the message (%s)" % ("; ".join(map(str, cnt)) or "not counted"))
        if kn == "ok":
            if known(o, e.res) != "ok" and Types(o).isres(e.res):
                rep("N02", f, "hand-over checked", "send returns success without knowing that handing the message over succeeded (%s)" % e)
            if fails:
                rep("N02", f, "error reported", "send returns success although %s failed" % show(fails[0]))
        d = [x for x in dropped(o)]
        if d:
            rep("N02", f, "no result ignored", "the result of %s is ignored" % d[0])
    rep.ok("N03", f, "every path hands the message at most once to the entry of the addressed party and counts its length", len(outs))
    rep.ok("N01", f, "every path that hands the message over has compared its length with the maximum", len(outs))
    return M, maps

def strip(v):
    while v and v[0] == "fld":
        v = v[1]
    return v

def recv_rules(N, rep, tk, f):
    outs = N.outs(f, [SELF, FROM])
    maps, tmo = set(), set()
    for o in outs:
        if o.kind == "panic":
            if not poison(o):
                rep("N03", f, "no panic on receive", "recv can panic: %s" % o.why)
            continue
        if o.kind == "loop":
            rep.unsure("N03", f, "recv contains a loop that is not understood")
            continue
        fails = failures(o)
        fa = [e for e in o.st.ev if last(e).startswith("fetch_")]
        lk = lookup(o, None, FROM)
        good = isok(o.v)
        if not good:
            if fa:
                rep("N03", f, "received counter", "the received-bytes counter grows on a path that delivers nothing")
            if not iserr(o.v):
                rep.unsure("N02", f, "result of recv not understood: %s" % show(o.v))
            continue
        if fails:
            rep("N02", f, "error reported", "recv returns data although %s failed" % show(fails[0]))
        v = o.v[3][0]
        r, chain = payload(v)
        ev = [e for e in o.st.ev if e.res == r]
        if not ev or not chain:
            rep("N02", f, "returns what was received", "recv returns %s, which is not what the connection delivered" % show(v))
            continue
        e = ev[0]
        fut = e
        if e.p == "await":
            fut = next((q for q in o.st.ev if q.res == e.args[0]), e)
        ty = Types(o)
        cur = r
        for var, i in chain:
            t = ty.of(cur)
            if t is not None and t[0] == "adt" and t[1] == RES and var != 0:
                rep("N02", f, "returns what was received", "recv returns the error value of %s as data" % show(cur))
            cur = ("pay", cur, var, i)
        ch = fut.args[0] if fut.args else UNIT
        seen = 0
        while root(ch)[0] == "ext" and seen < 4:
            q = next((q for q in o.st.ev if q.res == root(ch)), None)
            if q is None or q in lk or not q.args:
                break
            ch, seen = q.args[0], seen + 1
        src = [q for q in lk if q.res == root(ch)]
        if not src:
            rep("N03", f, "channel of the addressed party", "recv returns data from %s, which is not an entry looked up by the party id" % show(ch))
            continue
        q = src[0]
        maps.add(q.args[0])
        if q.args[1] != FROM:
            rep("N03", f, "channel of the addressed party", "recv returns data from the entry of %s instead of the addressed party" % show(q.args[1]))
        if len(fa) != 1 or last(fa[0]) != "fetch_add" or fa[0].args[1] != ("app", "len", v) or root(fa[0].args[0]) != q.res:
            rep("N03", f, "received counter", "the received-bytes counter of the sender does not grow by exactly the length of the message (%s)" % ("; ".join(map(str, fa)) or "not counted"))
        d = dropped(o)
        if d:
            rep("N02", f, "no result ignored", "the result of %s is ignored" % d[0])
    for o in outs:
        if o.kind == "ret":
            wait_rules(N, rep, f, o, tmo, "receive")
    rep.ok("N02", f, "data returned only where every step is known to have succeeded", len(outs))
    rep.ok("N05", f, "every wait bounded by the configured value or known to be unconfigured", len(outs))
    return maps, tmo

def unbounded_wait(e):
    return last(e) in ("recv", "blocking_recv") and e.p.split("::")[0] == "Receiver" or last(e) in ("join",)
def wait_rules(N, rep, f, o, tmo, what, allow=lambda e: False):
    """every wait on a path is bounded by the payload of one configured Option, or that Option is known to be None"""
    polled = {q.args[-1] for q in o.st.ev if q.p in ("await", "elapsed")}
    bounded = {q.args[1]: q.args[0] for q in o.st.ev if q.p in ("bounded", "elapsed")}
    for e in o.st.ev:
        if allow(e):
            continue
        d = None
        if last(e) == "recv_timeout" and len(e.args) == 2:
            d = e.args[1]
        elif last(e) == "await" and e.p == "await":
            d = bounded.get(e.args[0], "none")
        elif e.p == "elapsed":
            d = e.args[0]
        elif unbounded_wait(e) and e.res not in polled:
            d = "none"
        elif last(e) in ("try_recv", "recv_deadline"):
            rep.unsure("N05", f, "wait by %s" % e.p)
            continue
        else:
            continue
        if d == "none":
            for c, v in o.st.facts.items():
                if c[0] == "disc" and v == 0 and fieldpath(c[1]) and fieldpath(c[1])[0] == SELF:
                    tmo.add(("unset", c[1]))
                    break
            else:
                rep("N05", f, "wait bounded", "%s waits without bound (%s) although a timeout may be configured" % (what, e))
        else:
            r, ch = payload(d)
            if ch == [(1, 0)] and fieldpath(r) and fieldpath(r)[0] == SELF:
                tmo.add(("set", r))
            else:
                rep("N05", f, "wait bounded by the configured value", "%s waits for %s, which is not the configured timeout itself" % (what, show(d)))
    

def flush_rules(N, rep, tk, f):
    outs = N.outs(f, [SELF])
    maps, tmo = set(), set()
    rounds = 0
    for o in outs:
        if o.kind == "panic":
            if not poison(o):
                rep("N02", f, "no panic on flush", "flush can panic: %s" % o.why)
            continue
        fails = failures(o)
        nexts = [e for e in o.st.ev if e.p == "next"]
        acks = [e for e in o.st.ev if last(e) in ("bounded", "channel", "unbounded", "sync_channel") and e.p != "bounded"]
        if o.kind == "loop" or isok(o.v):
            if fails:
                rep("N02", f, "error reported", "flush goes on after %s failed" % show(fails[0]))
            d = dropped(o)
            if d:
                rep("N02", f, "no result ignored", "flush ignores the result of %s" % d[0])
        if o.kind == "ret" and isok(o.v):
            if not nexts:
                rep("N02", f, "every peer flushed", "flush can return success without going through the peers")
            for e in nexts:
                if o.st.facts.get(("disc", e.res)) == 1:
                    rep("N02", f, "every peer flushed", "flush can return success before it has been through all peers")
                it = e.args[0]
                if whole(it):
                    maps.add(whole(it))
        if o.kind == "loop":
            rounds += 1
            for e in nexts:
                if whole(e.args[0]) is None:
                    rep.unsure("N02", f, "flush goes through %s" % show(e.args[0]))
            if not acks:
                # a second pass over acknowledgements collected in a first one is not analysed
                if not any(mentions(a, x.res) for x in nexts for q in o.st.ev if q not in nexts for a in q.args):
                    rep("N02", f, "every peer flushed", "flush can pass over a peer without asking its writer to flush")
                continue
            for a in acks:
                tx, rx = ("fld", a.res, "0"), ("fld", a.res, "1")
                tx2, rx2 = ("fld", a.res, 0), ("fld", a.res, 1)
                req = [e for e in o.st.ev if any(x in (tx, tx2) for z in e.args for x in subterms(z))]
                if not req:
                    rep("N02", f, "every peer flushed", "flush does not hand an acknowledgement channel to the writer")
                    continue
                for e in req:
                    src = root(e.args[0])
                    if not (nexts and has(e.args[0], nexts[-1].res)):
                        rep("N02", f, "every peer flushed", "flush asks %s instead of the writer of the peer it is at" % show(e.args[0]))
                    if known(o, e.res) != "ok":
                        rep("N02", f, "request checked", "flush does not check that the writer took the request")
                wait = [e for e in o.st.ev if any(x in (rx, rx2) for z in e.args for x in subterms(z)) and e.p not in ("bounded", "drop")]
                kept = [e for e in wait if last(e) in ("push", "insert", "push_back")]
                if not wait:
                    rep("N02", f, "acknowledgement awaited", "flush does not wait for the writer's acknowledgement")
                if kept:
                    rep.unsure("N02", f, "acknowledgements are collected and awaited elsewhere")
                    continue
                for e in wait:
                    if e.p == "elapsed":
                        continue
                    if known(o, e.res) != "ok":
                        rep("N02", f, "acknowledgement checked", "flush goes on without knowing that the acknowledgement arrived (%s)" % e)
                    inner = ("pay", e.res, 0, 0)
                    if Types(o).isres(inner) and known(o, inner) != "ok":
                        rep("N02", f, "acknowledgement checked", "flush goes on without looking at what the writer acknowledged")
    for o in outs:
        if o.kind != "panic":
            wait_rules(N, rep, f, o, tmo, "flush")
    if not rounds:
        rep("N02", f, "every peer flushed", "flush does nothing for any peer")
    rep.ok("N02", f, "success only after a positive acknowledgement of every entry", len(outs))
    rep.ok("N05", f, "acknowledgement waits bounded by the configured value", len(outs))
    return maps, tmo
def whole(it):
    """the map an iterator goes through completely"""
    while it[0] == "app" and it[1] in ("iter", "into_iter", "iter_mut", "values", "keys", "enumerate", "values_mut", "cloned", "copied", "inspect"):
        it = it[2]
    return it if fieldpath(it) or it[0] in ("ext",) else None

def stats_rules(N, rep, tk, f, sm, rm):
    for o in N.outs(f, [SELF]):
        ins = [e for e in o.st.ev if last(e) == "insert"]
        nexts = [e for e in o.st.ev if e.p == "next"]
        loads = {e.res: e for e in o.st.ev if last(e) == "load"}
        gets = {e.res: e for e in o.st.ev if last(e) in ("get", "index")}
        def entry(ld):
            """(map, key) of the entry a counter was read from"""
            e = loads.get(ld)
            if e is None:
                return None
            r = root(e.args[0])
            if r in gets:
                return gets[r].args[0], gets[r].args[1]
            for x in subterms(e.args[0]):
                if x and x[0] == "app" and x[1] == "item":
                    return x[2], ("fld", x, "0")
            return None
        if o.kind != "loop":
            continue
        if nexts and not ins:
            rep.unsure("N03", f, "statistics are not built by insertion")
            continue
        for e in ins:
            k, v = e.args[1], e.args[2] if len(e.args) > 2 else UNIT
            if v[0] == "agg" and len(v[3]) == 2:
                a, b = entry(v[3][0]), entry(v[3][1])
                if a is None or b is None:
                    rep.unsure("N03", f, "statistics come from %s" % show(v))
                    continue
                if same(a[1]) != same(k) or same(b[1]) != same(k):
                    rep("N03", f, "statistics of the right party", "the statistics of party %s are those of %s/%s" % (show(k), show(a[1]), show(b[1])))
                if sm and a[0] not in sm or rm and b[0] not in rm:
                    rep("N03", f, "statistics (sent, received)", "the statistics pair is (%s, %s), not (sent, received)" % (show(a[0]), show(b[0])))
    rep.ok("N03", f, "statistics pair each party's own counters (sent, received)", 1)
def same(k):
    return (k[0], k[1], str(k[2])) if k and k[0] == "fld" else k

class Rep:
    """collects what the rules find, per property"""
    def __init__(self, cx, pids):
        self.cx, self.pids, self.seen = cx, pids, set()
        self.nolim = []
    def __call__(self, pid, f, rule, what):
        if pid in self.pids and (f.key, rule) not in self.seen:
            self.seen.add((f.key, rule))
            self.cx.bad(f, rule, what)
    def unsure(self, pid, f, why):
        w = re.sub(r"[@']\d+", "", why)
        if pid in self.pids and (f.key, w) not in self.seen:
            self.seen.add((f.key, w))
            self.cx.unsure(f, pid, why)
    def ok(self, pid, f, how, n):
        if pid in self.pids and not any(k == f.key for k, _ in self.seen):
            self.cx.good(f, how, "%d paths" % n)
    def count(self, pid, how, n):
        if pid in self.pids:
            self.cx.obligations.append({"function": "mpc_net", "rule": how, "how": "%d sites" % n})
    def nolimit(self, tk, f):
        if not tk.endswith("LocalNetwork"):
            self("N01", f, "length compared before transmission", "a message is handed over without its length having been compared with the maximum")

def methods(cx, *pids):
    N = Net(cx)
    rep = Rep(cx, set(pids))
    info = {}
    for tk, fs in N.tr:
        d = info[tk] = {}
        for m in ("send", "recv", "flush", "get_connection_stats", "id"):
            f = fs.get(m)
            if f is None or f.body is None:
                continue
            try:
                if m == "send":
                    d["M"], d["send"] = send_rules(N, rep, tk, f)
                elif m == "recv":
                    d["recv"], d["tmo"] = recv_rules(N, rep, tk, f)
                elif m == "flush":
                    d["flush"], d["ftmo"] = flush_rules(N, rep, tk, f)
                elif m == "get_connection_stats":
                    stats_rules(N, rep, tk, f, d.get("send"), d.get("recv"))
            except Unsupported as e:
                rep.unsure(pids[0], f, "unsupported: %s" % e)
        if d.get("flush") and d.get("send") and d["flush"] - d["send"]:
            rep("N02", fs["flush"], "every peer flushed", "flush goes through %s, messages are sent through %s" % (show(next(iter(d["flush"]))), show(next(iter(d["send"])))))
    return N, rep, info

# ---------------------------------------------------------------------- what add_peer sets going
def is_spawn(e):
    return last(e) == "spawn" and e.args and e.args[-1][0] in ("clo", "cor")
def impls_of(p, adt):
    """functions of inherent impls of a type"""
    out = []
    for im in p.impls:
        if adtof(im["self"]) == adt and im["trait"] is None:
            out += [p.fns[it[1]] for it in im["items"].values() if it and it[0] == "it" and it[1] in p.fns and p.fns[it[1]].body is not None]
    return out
def field_type(p, adt, path):
    for n in path:
        a = p.adts.get(adt)
        if not a:
            return None
        ty = next((f[1] for v in a["variants"] for f in v[1] if f[0] == n), None)
        if ty is None:
            return None
        adt = adtof(ty)
    return adt

def run_spawned(N, f, o, e, quiet=True):
    """paths of a spawned closure or task, from the state at the end of path o"""
    fr = N.frame(f)
    s = o.st.copy()
    s.ev, s.loops = (), ()
    c = e.args[-1]
    if c[0] == "cor":
        return N.X.await_(fr, s, c, None)
    return N.X.call_val(fr, s, c, [], None)

def captures(v):
    return list(v[3]) if v[0] in ("clo", "cor") else []

def peers(N, rep, tk, f, smap, rmap):
    """f registers a peer: both directions under the same id, each served by a loop over that peer's own stream"""
    p = N.p
    argc = f.body["argc"]
    if argc != 4:
        rep.unsure("N03", f, "registration takes %d arguments" % argc)
        return None
    ID, W, R = ("sym", "other_id"), ("sym", "write_half"), ("sym", "read_half")
    outs = N.outs(f, [SELF, ID, W, R])
    out = []
    for o in outs:
        if o.kind == "panic":
            rep("N03", f, "no panic when registering a peer", "registering a peer can panic: %s" % o.why)
            continue
        ins = [e for e in o.st.ev if last(e) == "insert" and len(e.args) == 3]
        si = [e for e in ins if tail(e.args[0]) == tail(smap)]
        ri = [e for e in ins if tail(e.args[0]) == tail(rmap)]
        sp = [e for e in o.st.ev if is_spawn(e)]
        if len(si) != 1 or len(ri) != 1:
            rep("N03", f, "both directions registered", "registering a peer stores %d send and %d receive entries" % (len(si), len(ri)))
            continue
        for e in si + ri:
            if e.args[1] != ID:
                rep("N03", f, "registered under its id", "a peer is registered under %s instead of its id" % show(e.args[1]))
        chans = {}
        for e in o.st.ev:
            if last(e) in ("bounded", "channel", "unbounded", "sync_channel") and e.p != "bounded":
                chans[e.res] = e
        def chan(v):
            for x in subterms(N.X.full(o.st, v)):
                if x and x[0] == "fld" and x[1] in chans:
                    return x[1], str(x[2])
                for q in o.st.ev:
                    if q.res == x and last(q) == "new" and q.args:
                        c = chan(q.args[0])
                        if c:
                            return c
            return None
        sc, rc = chan(si[0].args[2]), chan(ri[0].args[2])
        if sc is None or rc is None:
            rep.unsure("N03", f, "the queues of a peer are not recognised")
            continue
        if sc[1] != "0" or rc[1] != "1":
            rep("N03", f, "queue ends", "a peer's entries hold the wrong ends of its queues")
        wr = [e for e in sp if any(has(N.X.full(o.st, c), ("fld", sc[0], i)) for c in captures(e.args[-1]) for i in ("1", 1))]
        rd = [e for e in sp if any(has(N.X.full(o.st, c), ("fld", rc[0], i)) for c in captures(e.args[-1]) for i in ("0", 0))]
        if len(wr) != 1 or len(rd) != 1:
            rep("N03", f, "each queue served", "a peer's send queue is served by %d tasks, its receive queue by %d" % (len(wr), len(rd)))
            continue
        for e, mine, other, what in ((wr[0], W, R, "send"), (rd[0], R, W, "receive")):
            cs = [N.X.full(o.st, c) for c in captures(e.args[-1])]
            if not any(has(c, mine) for c in cs) or any(has(c, other) for c in cs):
                rep("N03", f, "each queue served over its own half", "the %s queue of a peer is not served over that half of its connection" % what)
        out.append((o, wr[0], rd[0], sc[0], rc[0], W, R))
    rep.ok("N03", f, "one entry per direction under the peer's id, each served over its own half of the connection", len(outs))
    return out
def tail(v):
    return v[2] if v[0] == "fld" else v

WRITES = {"write", "write_vectored", "write_all", "write_all_vectored", "write_all_buf", "send", "feed", "send_all", "start_send"}
def writer_rules(N, rep, f, o, e, q, W, kinds):
    """the loop that drains a send queue: kinds = (variant of a message, variant of a flush request)"""
    kd, kf = kinds
    outs = run_spawned(N, f, o, e)
    acked = 0
    fmt = set()
    for w in outs:
        if w.kind == "panic":
            continue
        msg = None
        for c, v in w.st.facts.items():
            if c[0] == "disc" and v in (kd, kf) and root(c[1]) == ("fld", q, "1") or c[0] == "disc" and c[1][0] in ("app", "pay") and qroot(w, c[1]) in (("fld", q, "1"), ("fld", q, 1)) and (c[1][0] == "app" and c[1][1] == "item" or c[1][0] == "pay"):
                msg = (c[1], v)
        if msg is None:
            continue
        m, kind = msg
        body = ("pay", m, kind, 0)
        fails = set(failures(w))
        if kind == kf:
            flushes = [x for x in w.st.ev if last(x) in ("flush", "poll_flush") and root(x.args[0]) == W]
            done = [x for x in w.st.ev if x.p == "await" and any(x.args[0] == y.res for y in flushes)]
            acks = [x for x in w.st.ev if last(x) == "send" and root(x.args[0]) == root(body) and has(x.args[0], body) and len(x.args) == 2]
            acks = [x for x in acks if x.args[0] == body]
            results = [x.res for x in done] or [x.res for x in flushes]
            for a in acks:
                acked += 1
                v = a.args[1]
                if isok(v):
                    if not results:
                        rep("N02", f, "acknowledged after flushing", "the writer acknowledges a flush without flushing the stream")
                    elif not any(known(w, r) == "ok" for r in results):
                        rep("N02", f, "acknowledged after flushing", "the writer acknowledges a flush without knowing that it succeeded")
                    elif max(x.k for x in w.st.ev if x.res in results) > a.k:
                        rep("N02", f, "acknowledged after flushing", "the writer acknowledges a flush before flushing")
                elif not iserr(v) and not any(has(v, r) for r in results):
                    rep.unsure("N02", f, "acknowledgement %s" % show(v))
            if w.kind == "loop" and not acks and outer(w, m):
                rep("N02", f, "flush request answered", "the writer drops a flush request and goes on")
            if w.kind == "loop" and outer(w, m) and any(known(w, r) == "err" for r in results):
                if not any(iserr(a.args[1]) for a in acks):
                    rep("N02", f, "flush failure reported", "the writer goes on after a failed flush without reporting it")
        else:
            touch = [x for x in w.st.ev if any(mentions(a, body) for a in x.args) and x.p not in ("drop",)]
            if w.kind == "loop" and outer(w, m):
                if not touch:
                    rep("N02", f, "every queued message written", "the writer takes a message off the queue and goes on without writing it")
                bad = [r for r in fails if not interrupted(w, r)]
                if bad:
                    rep("N02", f, "write failure ends the writer", "the writer goes on after %s failed, so later flushes would still be acknowledged" % show(bad[0]))
                d = [x for x in dropped(w) if last(x) in WRITES | {"flush"} or x.p == "await"]
                if d:
                    rep("N02", f, "write result looked at", "the writer ignores the result of %s" % d[0])
            # short writes
            for x in w.st.ev:
                if last(x) in ("write", "write_vectored") and known(w, x.res) == "ok":
                    n = ("pay", x.res, 0, 0)
                    if not any(has(a, n) for y in w.st.ev for a in y.args) and not any(has(c, n) and c[0] in ("lt", "eq") and not zero_test(c, n) for c in w.st.facts):
                        if w.kind == "loop":
                            rep("N02", f, "short writes continued", "the number of bytes written by %s is not taken into account" % x.p)
                    if w.kind == "loop" and not nonzero(w, n):
                        rep("N02", f, "a write of nothing is a failure", "a write that accepts no bytes is retried for ever or taken as success")
            fmt |= frame_format(w, body)
    if not acked:
        rep("N02", f, "flush request answered", "the writer never acknowledges a flush request")
    rep.ok("N02", f, "writer: a positive acknowledgement only after a successful flush; any failure ends it", len(outs))
    return fmt
def qroot(w, v):
    """the queue a received message comes from"""
    for _ in range(6):
        r = root(v)
        if r[0] == "fld":
            return r
        if r[0] == "app" and r[1] == "out":
            r = r[2]
        e = next((e for e in w.st.ev if e.res == r or e.res == v), None)
        if e is None:
            for x in subterms(v):
                if x and x[0] == "fld" and x[1] and x[1][0] == "ext":
                    return x
            return r
        if not e.args:
            return r
        v = e.args[0]
        if v[0] == "fld":
            return v
    return v
def outer(w, m):
    """a 'loop' path that is back at the head of the loop that took message m off the queue"""
    n = w.why[2] if w.why else 0
    ids = {x for x in subterms(m) if x and x[0] == "ext"}
    return any(e.res in ids or any(a in ids for a in e.args) for e in w.st.ev[n:])
def interrupted(w, r):
    for c, v in w.st.facts.items():
        if v is True and c[0] == "eq" and any(x and x[0] == "app" and x[1] == "kind" and has(x, r) for x in subterms(c)):
            return True
    return False
def zero_test(c, n):
    return c[0] == "eq" and num(0) in c or c == lt(n, num(1)) or neg(lt(num(0), n)) == c
def nonzero(w, n):
    for c, v in w.st.facts.items():
        if c[0] == "eq" and n in c and num(0) in c and v is False:
            return True
        if c == lt(n, num(1)) and v is False:
            return True
    return False
def frame_format(w, body):
    """how the length precedes the payload: {encoding of the length}"""
    out = set()
    L = ("app", "len", body)
    for e in w.st.ev:
        for a in e.args:
            for x in subterms(a):
                if x and x[0] == "app" and str(x[1]).startswith("to_") and ":" in str(x[1]) and has(x, L):
                    out.add((x[1][3:], x[2]  == L))
    return out

READS = {"read", "read_vectored", "read_buf", "next", "read_exact", "try_next"}
def reader_rules(N, rep, f, o, e, q, R, M):
    """the loop that feeds a receive queue"""
    outs = run_spawned(N, f, o, e)
    delivered, fmt = 0, set()
    rtx = (("fld", q, "0"), ("fld", q, 0))
    for w in outs:
        if w.kind == "panic":
            if not any(last(x) == "panic_fmt" for x in w.st.ev) and w.why and not any(last(x) in ("try_into", "try_from") or root(x.res)[0] == "ext" and "try_" in str(root(x.res)[2]) for x in w.st.ev) and not w.why.startswith("diverges") and "attempt to" not in w.why:
                rep.unsure("N02", f, "the reader can panic: %s" % w.why)
            continue
        sends = [x for x in w.st.ev if last(x) in ("send", "blocking_send", "try_send") and x.args and x.args[0] in rtx]
        fails = failures(w)
        reads = [x for x in w.st.ev if last(x) in READS and x.args and root(x.args[0]) == R]
        awaits = {x.args[0]: x for x in w.st.ev if x.p == "await"}
        src = [awaits[x.res] if x.res in awaits else x for x in reads]
        sendres = {x.res for x in sends} | {awaits[x.res].res for x in sends if x.res in awaits}
        broken = [r for r in fails if r not in sendres and payload(r)[0] not in sendres]
        # length prefix read from the buffer
        lens = set()
        for y in list(w.st.facts) + [a for x in w.st.ev for a in x.args]:
            for x in subterms(y):
                if x and x[0] == "app" and str(x[1]).startswith("from_") and ":" in str(x[1]):
                    lens.add(x)
                    fmt.add((x[1][5:], True))
        over = None
        for l in lens:
            for c, v in w.st.facts.items():
                if not has(c, l) or c[0] != "lt":
                    continue
                m = next((x for x in subterms(c) if (fieldpath(x) and fieldpath(x)[0] == SELF) and lt(x, l) in (c, ("not", c))), None)
                if m is not None:
                    over = v if lt(m, l) == c else not v
                    if M and tail(m) not in {tail(x) for x in M}:
                        rep("N01", f, "limit is the maximum frame length", "the reader compares the announced length with %s" % show(m))
            if over is None:
                big = [x for x in w.st.ev if last(x) in ("reserve", "resize", "with_capacity", "split_to", "zeroed", "from_elem", "try_reserve") and any(has(a, l) for a in x.args)]
                if big:
                    rep("N01", f, "announced length checked before use", "the reader uses the announced length (%s) without having compared it with the maximum" % big[0].p)
            elif over:
                big = [x for x in w.st.ev if last(x) in ("reserve", "resize", "with_capacity", "split_to", "zeroed", "from_elem") and any(has(a, l) for a in x.args)]
                if big:
                    rep("N01", f, "announced length checked before use", "the reader uses an announced length above the maximum (%s)" % big[0].p)
                if w.kind == "loop":
                    rep("N01", f, "over-long frame reported", "the reader goes on after a frame longer than the maximum")
                if any(isok(x.args[1]) for x in sends):
                    rep("N01", f, "over-long frame reported", "the reader delivers data of a frame longer than the maximum")
        eof = [x for x in src if last(x) == "read" and known(w, x.res) == "ok" and iszero(w, ("pay", x.res, 0, 0))]
        for x in src:
            if last(x) == "read" and known(w, x.res) == "ok":
                n = ("pay", x.res, 0, 0)
                if not iszero(w, n) and not nonzero(w, n) and w.kind == "loop":
                    rep("N02", f, "end of stream noticed", "the reader does not notice the end of the stream")
                if w.kind == "loop" and not iszero(w, n) and not any(has(a, n) for y in w.st.ev for a in y.args):
                    rep("N02", f, "short reads accounted for", "the number of bytes read is not taken into account")
        if (broken or eof) and w.kind == "loop":
            bad = [r for r in broken if not interrupted(w, r)]
            if bad or eof:
                rep("N02", f, "failure ends the reader", "the reader goes on after %s" % (show(bad[0]) + " failed" if bad else "the end of the stream"))
        for x in sends:
            v = x.args[1]
            if isok(v):
                delivered += 1
                if broken or eof:
                    rep("N02", f, "no data after a failure", "the reader delivers data on a path on which %s failed" % (show(broken[0]) if broken else "the stream ended"))
                d = v[3][0]
                y = next((y for y in w.st.ev if y.res == d), None)
                if y is not None and last(y) == "split_to":
                    L = y.args[1]
                    if lens and L not in lens:
                        rep("N02", f, "whole payload delivered", "the reader delivers %s bytes where the frame announced %s" % (show(L), show(next(iter(lens)))))
                    B = ("app", "len", y.args[0])
                    enough = False
                    for c, t in w.st.facts.items():
                        if c[0] == "lt" and L in set(subterms(c)) and any(z and z[0] == "app" and z[1] == "len" and z[2] == y.args[0] for z in subterms(c)):
                            enough = True
                    if lens and not enough:
                        rep("N02", f, "whole payload delivered", "the reader delivers a frame without having compared its length with what is buffered")
                elif y is None and not any(payload(d)[0] == z.res for z in src):
                    rep.unsure("N02", f, "the reader delivers %s" % show(d))
        d = [x for x in dropped(w) if (x in src)]
        if d:
            rep("N02", f, "read result looked at", "the reader ignores the result of %s" % d[0])
        if broken and not any(not isok(x.args[1]) for x in sends) and w.kind == "ret" and not eof:
            pass
    if not delivered:
        rep("N02", f, "received data delivered", "the reader never delivers a frame")
    rep.ok("N01", f, "reader: the announced length is compared with the maximum before any use, above it nothing is delivered", len(outs))
    rep.ok("N02", f, "reader: failure or end of stream ends it, data delivered only on paths without failure", len(outs))
    return fmt
def iszero(w, n):
    for c, v in w.st.facts.items():
        if c[0] == "eq" and n in c and num(0) in c and v is True:
            return True
        if c == lt(n, num(1)) and v is True:
            return True
    return False

def msgkinds(N, info, tk, f_send, f_flush):
    """variant numbers of a message and of a flush request, as sent by send and flush"""
    kd = kf = None
    for o in N.outs(f_send, [SELF, TO, DATA]):
        for e in o.st.ev:
            for a in e.args:
                if a[0] == "agg" and a[1] not in (RES, OPT, "tup", "arr") and has(a, DATA):
                    kd = a[2]
    for o in N.outs(f_flush, [SELF]):
        for e in o.st.ev:
            for a in e.args:
                if a[0] == "agg" and a[1] not in (RES, OPT, "tup", "arr") and any(x and x[0] == "fld" and x[1][0] == "ext" for x in subterms(a)):
                    kf = a[2]
    return kd, kf

def loops(N, rep, info):
    """registration and the background loops, once per channel type"""
    done = set()
    for tk, fs in N.tr:
        d = info[tk]
        if tk.endswith("LocalNetwork") or not d.get("send") or not d.get("recv"):
            continue
        smap, rmap = next(iter(d["send"])), next(iter(d["recv"]))
        owner = field_type(N.p, tk, fieldpath(smap)[1][:-1])
        d["owner"] = owner
        if owner in done:
            continue
        done.add(owner)
        kinds = msgkinds(N, info, tk, fs["send"], fs["flush"])
        found = 0
        for f in impls_of(N.p, owner):
            try:
                ty = f.body["argc"]
                outs = N.outs(f) if ty != 4 else N.outs(f, [SELF, ("sym", "other_id"), ("sym", "write_half"), ("sym", "read_half")])
            except Unsupported:
                continue
            ins = {tail(e.args[0]) for o in outs for e in o.st.ev if last(e) == "insert" and fieldpath(e.args[0])}
            if not {tail(smap), tail(rmap)} <= ins:
                continue
            found += 1
            d["add_peer"] = f
            wf, rf = set(), set()
            for o, w, r, sq, rq, W, R in peers(N, rep, tk, f, smap, rmap) or ():
                wf |= writer_rules(N, rep, f, o, w, sq, W, kinds)
                rf |= reader_rules(N, rep, f, o, r, rq, R, d.get("M"))
            if wf and rf and {x for x, _ in wf} != {x for x, _ in rf}:
                rep("N02", f, "length prefix", "the writer encodes the length with to_%s, the reader decodes it with from_%s" % (sorted(wf)[0][0], sorted(rf)[0][0]))
            if any(not y for _, y in wf):
                rep("N02", f, "length prefix", "the length prefix written is not the length of the payload")
        if not found:
            rep.unsure("N03", fs["send"], "the function that registers a peer is not recognised")
