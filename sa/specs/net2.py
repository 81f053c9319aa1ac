"""N01-N07, second part: what the constructors do with their configuration, their sockets and their peers."""
from ..paths import Paths, St, Frame, Out, subterms, show, lt, neg, num, RES, OPT, UNIT
from ..interp import Unsupported
from ..spec import Missing
from .net import (Net, Rep, methods, loops, root, has, mentions, isok, iserr, last, payload, fieldpath, adtof, Types, failures, known, dropped, retry,
                  run_spawned, captures, tail, is_spawn, field_type)

CFG = {"max_frame_length", "timeout", "flush_timeout", "connect_timeout", "init_session_timeout"}

def aty(p, f, i):
    t = f.body["tys"][i + 1]
    return adtof(t)
def targs(p, f):
    """parameters of local types are named after their type"""
    out = []
    for i in range(f.body["argc"]):
        a = aty(p, f, i)
        t = f.body["tys"][i + 1]
        out.append(("sym", "@" + a) if a and a.startswith("mpc_net::") and a in p.adts else ("sym", "session_id" if t == ("p", "u128") else Paths.argname(None, f, i)))
    return out

class Roots:
    """every function of mpc_net with its paths, registration of peers and flushing kept as single events"""
    def __init__(self, N, info):
        self.N, self.p = N, N.p
        self.paths = {}
        self.made = []
        self.roots = None
        self.sp = set()
        self.timpls = {im["key"] for im in N.p.impls if im["trait"]}
        self.X = X = Paths(N.p)
        X.watch = {k for k in N.p.adts if k.startswith("mpc_net::")}
        self.regs = {d["add_peer"].key for d in info.values() if d.get("add_peer")}
        fl = set()
        for im in self.p.impls:
            if im["crate"] == "mpc_net" and im["trait"] and im["trait"].split("::")[-1] == "Network":
                it = im["items"].get("flush")
                if it and it[0] == "it":
                    fl.add(it[1])
        owners = {d.get("owner") for d in info.values()}
        for k, f in self.p.fns.items():
            if k.startswith("mpc_net::") and k.endswith("::flush") and f.body is not None and "tls::" not in k:
                fl.add(k)
        self.flushes = fl
        def reg(X, fr, st, a, args, loc):
            st = st.copy()
            fa = tuple(X.full(st, x) if i else self.place(X, st, x) for i, x in enumerate(args))
            e = X.emit(st, "REGISTER", fa, None, loc, (), fr)
            from ..paths import Out
            return [Out("ret", st, UNIT)]
        for k in self.regs:
            X.ov[k] = reg
    def place(self, X, st, r):
        v = X.full(st, r)
        return v
    def run(self, f):
        if f.key in self.paths:
            return self.paths[f.key]
        X, N = self.X, self.N
        X.n = 0
        X.made = []
        outs = X.run(f, targs(self.p, f))
        if len(outs) == 1 and outs[0].v is not None and outs[0].v[0] == "cor":
            outs = X.await_(self.frame(f), outs[0].st, outs[0].v, None)
        made = [(m, f) for m in X.made]
        self.made += made
        N.cx.inlined |= X.inlined
        N.cx.external |= X.external
        N.cx.calls += sum(len(o.st.ev) for o in outs)
        self.paths[f.key] = outs
        return outs
    def frame(self, f):
        fr = Frame()
        fr.fn, fr.body, fr.g, fr.cfg, fr.fid, fr.depth = f, None, (), None, next(self.X.fids), 0
        return fr
    def spawned(self, f, o, e):
        """paths of a spawned closure, from the state at the end of o"""
        s = o.st.copy()
        s.ev, s.loops = (), ()
        c = e.args[-1]
        fr = self.frame(f)
        return self.X.await_(fr, s, c, None) if c[0] == "cor" else self.X.call_val(fr, s, c, [], None)
    def all(self):
        """functions judged by themselves: private ones that others call are judged where they are called"""
        if self.roots is None:
            fs = list(self.every())
            used = set()
            for k, f in self.p.fns.items():
                if k.startswith("mpc_net::") and f.body is not None:
                    for k2 in fnrefs(f.body):
                        if k2 != k and not k.startswith(k2 + "::"):
                            used.add(k2)
            helper = [f for f in fs if not f.raw.get("pub") and f.key in used and not self.traitimpl(f)]
            hk = {f.key for f in helper}
            rs = [f for f in fs if f.key not in hk]
            for f in rs:
                try:
                    outs = self.run(f)
                    for o in outs:
                        for e in o.st.ev:
                            if is_spawn(e) and (f.key, e.args[-1][1]) not in self.sp:
                                self.sp.add((f.key, e.args[-1][1]))
                                self.spawned(f, o, e)
                except Exception:
                    pass
            seen = set(self.X.inlined)
            self.roots = [f for f in fs if f.key not in hk or f.key not in seen]
        return list(self.roots)
    def traitimpl(self, f):
        return f.raw.get("impl") in self.timpls
    def every(self):
        for k, f in sorted(self.p.fns.items()):
            if not k.startswith("mpc_net::") or f.body is None or "{closure" in k or "__CALLSITE" in k or "deserialize" in k or k.endswith("::fmt") or "::join" in k:
                continue
            if "tests" in k or f.raw.get("kind", "").startswith(("Static", "Const")):
                continue
            yield f

def fnrefs(x):
    """keys of the functions a body mentions"""
    out = set()
    todo = [x["bbs"]]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if isinstance(y.get("k"), str):
                out.add(y["k"])
            todo.extend(y.values())
        elif isinstance(y, (list, tuple)):
            todo.extend(y)
    return out

def origin(R, v, facts, seen=()):
    """where a configured value comes from: {('cfg', adt, path, payload?) | ('param', name) | ('int', n) | ('other', v)}"""
    out = set()
    pay = False
    w = v
    if w[0] == "pay" and w[2] == 1 and w[3] == 0:
        w, pay = w[1], True
    fp = fieldpath(w)
    if fp is None:
        if w[0] == "int":
            return {("int", w[1])}
        if w[0] == "sym":
            return {("const" if str(w[1]).startswith("const ") else "param", w[1])}
        return {("other", show(v))}
    r, path = fp
    if not r[1].startswith("@"):
        return {("param", r[1])}
    adt = r[1][1:]
    if adt.endswith("NetworkConfig"):
        return {("cfg", adt, path, pay)}
    if (adt, path) in seen:
        return set()
    a = R.p.adts.get(adt)
    idx = next((i for i, f in enumerate(a["variants"][0][1]) if f[0] == path[0]), None) if a else None
    n = 0
    for (k, var, fields, fn, st), by in list(R.made):
        if by.key.split("::")[-1] == "default":
            continue
        if k != adt or idx is None or idx >= len(fields):
            continue
        n += 1
        x = fields[idx]
        for nm in path[1:]:
            if x[0] == "agg" and x[1] in R.p.adts:
                fs = [f[0] for f in R.p.adts[x[1]]["variants"][x[2]][1]]
                x = x[3][fs.index(nm)] if nm in fs else ("fld", x, nm)
            else:
                x = ("fld", x, nm)
        if pay:
            x = x[3][0] if x[0] == "agg" and x[1] == OPT and x[2] == 1 else ("pay", x, 1, 0)
        out |= origin(R, x, st.facts, seen + ((adt, path),))
    return out or {("unmade", adt, path)}

def same_config(o):
    return o[0] == "cfg"
def expect(R, rep, pid, f, what, v, names, st, opt=None, default=None, unwrapped=None):
    """v must be the configured value called by one of names"""
    facts = st.facts
    for o in origin(R, v, facts):
        if o[0] == "param":
            continue
        if o[0] == "cfg":
            if o[2][-1] in names:
                continue
            rep(pid, f, "%s is the configured one" % what, "%s is taken from the configuration's `%s` (expected `%s`)" % (what, ".".join(o[2]), "` or `".join(sorted(names))))
        elif o[0] == "const":
            rep(pid, f, "%s is the configured one" % what, "%s is fixed to %s" % (what, o[1]))
        elif o[0] == "int" and default is not None:
            if o[1] != default:
                rep(pid, f, "%s is the configured one" % what, "%s is fixed to %d" % (what, o[1]))
            elif unwrapped is not None and not unwrapped:
                rep(pid, f, "%s is the configured one" % what, "%s is the default although one may be configured" % what)
        elif o[0] == "int":
            rep(pid, f, "%s is the configured one" % what, "%s is fixed to %d" % (what, o[1]))
        elif o[0] == "other":
            if v[0] == "agg" and v[1] == OPT and v[2] == 0:
                rep(pid, f, "%s is the configured one" % what, "%s is not set although one may be configured" % what)
            elif any(fieldpath(x) and fieldpath(x)[0][1].startswith("@") and fieldpath(x)[1][-1] in CFG for z in Flow(Out("ret", st)).closure(v) for x in subterms(z)):
                rep(pid, f, "%s is the configured one" % what, "%s is %s, not the configured value itself" % (what, show(v)))
            else:
                rep.unsure(pid, f, "%s comes from %s" % (what, show(v)))

def configuration(R, rep, info):
    """values given to the channels are those configured under that name"""
    p = R.p
    d = p.fns.get("mpc_net::DEFAULT_MAX_FRAME_LENGTH")
    default = None
    if d is not None and d.body is not None:
        o = R.X.run(d)
        default = o[0].v[1] if o and o[0].v and o[0].v[0] == "int" else None
    roles = {}
    for tk, i in info.items():
        ow = i.get("owner")
        if not ow:
            continue
        for role, key, pid, nm in (("maximum frame length", "M", "N01", "max_frame_length"), ("receive timeout", "tmo", "N05", "timeout"), ("flush timeout", "ftmo", "N05", "flush_timeout")):
            for x in i.get(key) or ():
                x = x[1] if x and x[0] in ("set", "unset") else x
                if fieldpath(x):
                    roles.setdefault(ow, set()).add((fieldpath(x)[1][-1], role, pid, nm))
    n = 0
    for (k, var, fields, fn, st), f in list(R.made):
        if k not in roles:
            continue
        names = [x[0] for x in p.adts[k]["variants"][0][1]]
        for fld, role, pid, nm in roles[k]:
            if fld not in names:
                continue
            n += 1
            v = fields[names.index(fld)]
            un = None
            if v[0] == "int":
                un = any(c[0] == "disc" and y == 0 and fieldpath(c[1]) and fieldpath(c[1])[1][-1] == nm for c, y in st.facts.items())
            expect(R, rep, pid, f, "the %s" % role, v, {nm}, st, default=default if pid == "N01" else None, unwrapped=un)
    for pid in ("N01", "N05"):
        rep.count(pid, "configured value of that name reaches the channels unchanged", n)
    # values used when a configuration file leaves them out
    if default is not None:
        for k, f in sorted(p.fns.items()):
            if not k.startswith("mpc_net::") or "deserialize" not in k or f.body is None:
                continue
            for t in f.body["bbs"]:
                t = t[1]
                g = p.fns.get(t[1][1]["k"]) if t[0] == "call" and t[1][0] == "fn" else None
                if g is None or g.body is None or g.body["argc"] != 0 or g.body["tys"][0] != ("p", "usize"):
                    continue
                for o in R.X.run(g):
                    if o.v is not None and o.v[0] == "int" and o.v[1] != default:
                        rep("N01", g, "default maximum", "a configuration that leaves the maximum frame length out gets %d, not the default %d" % (o.v[1], default))
    # configuration structs built from one another
    cfgs = [k for k in p.adts if k.startswith("mpc_net::") and k.endswith("NetworkConfig")]
    setters = {}
    for f in R.all():
        nm = f.key.split("::")[-1]
        if nm in CFG and f.body["argc"] == 2:
            for o in R.run(f):
                a = aty(p, f, 0)
                if o.kind != "ret" or a not in p.adts:
                    continue
                v = R.X.full(o.st, o.v)
                for x in subterms(v):
                    if x and x[0] == "app" and x[1] == "upd" and x[4] == ("agg", OPT, 1, (("sym", Paths.argname(None, f, 1)),)):
                        setters[(a, nm)] = (x[3], f)
                if v[0] == "agg" and v[1] == a:
                    for i, x in enumerate(v[3]):
                        if x == ("agg", OPT, 1, (("sym", Paths.argname(None, f, 1)),)):
                            setters[(a, nm)] = (p.adts[a]["variants"][0][1][i][0], f)
    for (k, var, fields, fn, st), f in list(R.made):
        if k not in cfgs or "deserialize" in fn:
            continue
        names = [x[0] for x in p.adts[k]["variants"][0][1]]
        for i, nm in enumerate(names):
            if nm not in CFG:
                continue
            fp = fieldpath(fields[i])
            pid = "N01" if nm == "max_frame_length" else "N05"
            if fp is None or not fp[0][1].startswith("@"):
                if not fp and fields[i][0] != "sym":
                    # the configurations the value is made of, by the fields it uses
                    src_ = {q[0][1][1:] for q in map(fieldpath, fields) if q and q[0][1].startswith("@")}
                    todo, below, known = [fields[i]], [], True
                    while todo:
                        for x in subterms(todo.pop()):
                            if x in below:
                                continue
                            below.append(x)
                            if x and x[0] == "ext":
                                e_ = [e for e in st.ev if e.i == x[1]]
                                known = known and bool(e_)
                                todo += [R.X.full(st, a_) for e in e_ for a_ in e.args]
                    uses = {(q[0][1][1:], q[1][0]) for q in map(fieldpath, below) if q and q[0][1].startswith("@") and q[1]}
                    own = {(s_, setters[(s_, nm)][0] if (s_, nm) in setters else nm) for s_ in src_}
                    has = [s_ for s_, w in own if s_ in p.adts and w in [x[0] for x in p.adts[s_]["variants"][0][1]]]
                    if known and has and not uses & own and all(u[0] in src_ for u in uses):
                        rep(pid, f, "configuration carried over by name", "`%s` of the configuration is not taken from `%s` of what it is built from" % (nm, nm))
                        continue
                    if any(u in {(s_, n_) for s_ in src_ for n_ in CFG} - own for u in uses):
                        rep(pid, f, "configuration carried over by name", "`%s` of the configuration also depends on `%s`" % (nm, ", ".join(sorted(u[1] for u in uses - own))))
                        continue
                    rep.unsure(pid, f, "%s of the configuration comes from %s" % (nm, show(fields[i])))
                continue
            src = fp[0][1][1:]
            want = setters[(src, nm)][0] if (src, nm) in setters else nm
            if fp[1] != (want,):
                rep(pid, f, "configuration carried over by name", "`%s` of the configuration is built from `%s`%s" % (nm, ".".join(fp[1]), "" if want == nm else ", but its setter sets `%s`" % want))
    return default

def codecs(R, rep, default):
    """every framed stream uses the same length field and the configured limit"""
    n = 0
    kinds = {}
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        for o in outs:
            by = {e.res: e for e in o.st.ev}
            for e in o.st.ev:
                if not (e.p.startswith("Framed") and last(e) == "new" and len(e.args) == 2):
                    continue
                n += 1
                v, lim, chain = e.args[1], None, []
                while root(v) in by:
                    q = by[root(v)]
                    if last(q) == "max_frame_length":
                        lim = q.args[1] if lim is None else lim
                    elif last(q) not in ("new_codec", "builder", "new"):
                        chain.append((last(q), repr(q.args[1:]), repr([t for t in q.ts if t])))
                    if not q.args:
                        break
                    v = q.args[0]
                if lim is None:
                    rep("N01", f, "codec limited to the maximum", "a framed stream is created without the configured maximum frame length")
                else:
                    expect(R, rep, "N01", f, "the codec's maximum frame length", lim, {"max_frame_length"}, o.st, default=default)
                kinds.setdefault(tuple(sorted(chain)), (f, e))
    if len(kinds) > 1:
        (c1, (f1, _)), (c2, (f2, _)) = sorted(kinds.items(), key=lambda x: repr(x[0]))[:2]
        rep("N04", f2, "one frame format", "framed streams use different codecs: %s / %s" % (c1, c2))
        rep("N02", f2, "one frame format", "framed streams use different codecs: %s / %s" % (c1, c2))
    rep.count("N01", "framed streams carry the configured maximum", n)

# ---------------------------------------------------------------------- connecting
def stdev(e, name):
    return last(e) == name and e.p.split("::")[0] in ("TcpStream", "TcpListener", "Socket", "Connecting", "Endpoint")
def isasync(e):
    return e.raw is not None and "tokio" in str(e.raw)
def setting(o, e, name):
    """last `name(socket, v)` on the socket of event e before it"""
    s = root(e.args[0])
    v = None
    for q in o.st.ev:
        if q.k >= e.k:
            break
        if last(q) == name and root(q.args[0]) == s:
            v = q
    return v
CT = {"connect_timeout", "init_session_timeout"}
def unset_timeout(o):
    return any(c[0] == "disc" and v == 0 and fieldpath(c[1]) and fieldpath(c[1])[1][-1] in CT for c, v in o.st.facts.items())

def connecting(R, rep):
    n = 0
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported as e:
            rep.unsure("N05", f, "unsupported: %s" % e)
            continue
        for o in outs:
            for e in o.st.ev:
                if stdev(e, "connect_timeout"):
                    n += 1
                    expect(R, rep, "N05", f, "the bound on connecting", e.args[1], CT, o.st)
                elif last(e) == "connect" and e.p.startswith("TcpStream") and not isasync(e):
                    n += 1
                    if not unset_timeout(o):
                        rep("N05", f, "connecting bounded", "connects without bound although a connect timeout may be configured")
                elif stdev(e, "accept") and e.p.startswith("TcpListener") and not isasync(e):
                    n += 1
                    q = setting(o, e, "set_read_timeout")
                    if q is None:
                        rep("N05", f, "accepting bounded", "waits for a peer to connect without the configured connect timeout")
                    else:
                        expect(R, rep, "N05", f, "the bound on accepting", q.args[1], CT, o.st)
                elif e.p == "await":
                    fut = next((q for q in o.st.ev if q.res == e.args[0]), None)
                    if fut is not None and last(fut) in ("accept", "connect_with", "connect") and fut.p.startswith(("Endpoint", "quinn")) or fut is None and root(e.args[0])[0] == "ext" and str(root(e.args[0])[2]) in ("Endpoint::connect_with", "Endpoint::connect"):
                        n += 1
                        if not unset_timeout(o) and not any(q.p in ("bounded", "elapsed") and has(("x",) + q.args, e.args[0]) for q in o.st.ev):
                            rep("N05", f, "connecting bounded", "waits for %s without bound although a connect timeout may be configured" % show(e.args[0]))
                elif e.p in ("bounded", "elapsed") and len(e.args) == 2:
                    if any(x and x[0] == "ext" and str(x[2]).split("::")[-1] in ("accept", "connect_with", "connect") for a in e.args for x in subterms(a)):
                        expect(R, rep, "N05", f, "the bound on connecting", e.args[0], CT, o.st)
            # retry loops
            if o.kind == "loop" and not any(e.p == "next" for e in retry(o)):
                es = retry(o)
                cs = [e for e in es if stdev(e, "connect_timeout") and known(o, e.res) == "err"]
                if cs:
                    d = cs[0].args[1]
                    clocks = [e for e in o.st.ev if last(e) in ("elapsed", "duration_since", "now")] 
                    tainted = {d}
                    timey = {e.res for e in clocks}
                    for e in o.st.ev:
                        if any(has(a, x) for a in e.args for x in tainted):
                            tainted.add(e.res)
                        if any(has(a, x) for a in e.args for x in timey):
                            timey.add(e.res)
                    good = False
                    for c, v in o.st.facts.items():
                        if c[0] not in ("lt", "eq", "not", "disc", "app", "ext") and c not in tainted:
                            continue
                        if (any(has(c, x) for x in tainted) or c in tainted) and (any(has(c, x) for x in timey) or any(y and y[0] == "sym" and str(y[1]).startswith("time") for y in subterms(c)) or c in timey):
                            good = True
                    if not good:
                        rep("N05", f, "retrying bounded", "a failed connection attempt is retried without comparing the elapsed time with the connect timeout")
    rep.count("N05", "connecting and accepting bounded by the configured value or known to be unconfigured", n)

def accepted_sockets(R, rep):
    """an accepted connection waits for messages without the bound that was set for accepting it"""
    n = 0
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        for o in outs:
            regs = [e for e in o.st.ev if e.p == "REGISTER"]
            for e in regs:
                for v in e.args[2:]:
                    s = root(v)
                    q = next((x for x in o.st.ev if x.res == s), None)
                    if q is not None and last(q) == "try_clone":
                        s = root(q.args[0])
                        q = next((x for x in o.st.ev if x.res == s), None)
                    if q is None or last(q) != "accept" or isasync(q):
                        continue
                    n += 1
                    t = None
                    for x in o.st.ev:
                        if last(x) == "set_read_timeout" and root(x.args[0]) == s:
                            t = x
                    lt_ = setting(o, q, "set_read_timeout")
                    if lt_ is not None and (t is None or t.args[1] != ("agg", OPT, 0, ())):
                        rep("N05", f, "accept bound lifted", "an accepted connection keeps the connect timeout as a bound on every later receive")
    rep.count("N05", "accepted connections are freed of the bound used for accepting", n)

# ---------------------------------------------------------------------- handshakes
OWN = {"my_id", "party_id", "id"}
def isown(v):
    v = uncast(v)
    fp = fieldpath(v)
    if fp is None or not fp[0][1].startswith("@mpc_net"):
        return False
    if fp[1][-1] in OWN:
        return True
    if CUR is None or fp[0][1].endswith("NetworkConfig"):
        return False
    if v not in OWNED:
        OWNED[v] = False
        os = [o for o in origin(CUR, v, {}) if o[0] != "param"]
        OWNED[v] = bool(os) and all(o[0] == "cfg" and o[2][-1] in OWN for o in os)
    return OWNED[v]
CUR, OWNED = None, {}
def uncast(v):
    """without the conversions that keep every party id; a cast from a wider type that cuts off more is kept"""
    while v and (v[0] == "app" and (v[1] in ("as:u32", "as:usize", "as:i64") or v[1] == "min") or v[0] == "pay" and v[1][0] == "ext" and str(v[1][2]).split("::")[-1] in ("try_from", "try_into")):
        if v[0] == "app":
            v = v[2]
        else:
            return v
    return v
class Flow:
    """where the values of a path come from"""
    def __init__(self, o):
        self.o = o
        self.by = {e.res: e for e in o.st.ev if e.res != UNIT}
    def exts(self, v):
        return {x for x in subterms(v) if x and x[0] == "ext"}
    def closure(self, v, stop=lambda e: False):
        """every term v is made from, through the calls that made it"""
        seen, todo, out = set(), [v], []
        while todo:
            x = todo.pop()
            out.append(x)
            for y in self.exts(x):
                if y in seen:
                    continue
                seen.add(y)
                e = self.by.get(y)
                if e is not None and not stop(e):
                    todo.extend(e.args)
        return out
    def uncast(self, v):
        for _ in range(8):
            v = uncast(v)
            if v and v[0] == "pay" and v[1] in self.by and last(self.by[v[1]]) in ("try_from", "try_into"):
                v = self.by[v[1]].args[0]
                continue
            if v in self.by and last(self.by[v]) in ("from", "into"):
                v = self.by[v].args[0]
                continue
            break
        return v
    def prims(self):
        """handshake reads and writes: (event, 'R'/'W', kind, stream)"""
        aw = {e.args[0]: e.res for e in self.o.st.ev if e.p == "await"}
        out = []
        for e in self.o.st.ev:
            n = last(e)
            if e.p.split("::")[0] not in ("WriteBytesExt", "ReadBytesExt", "AsyncWriteExt", "AsyncReadExt"):
                continue
            if n.startswith("write_") and len(e.args) == 2:
                out.append((e, "W", n[6:] + order(e), e.args[0], e.args[1]))
            elif n.startswith("read_") and len(e.args) == 1 and n not in ("read_to_end", "read_exact"):
                r = aw.get(e.res, e.res)
                out.append((e, "R", n[5:] + order(e), e.args[0], ("pay", r, 0, 0)))
        return out
def order(e):
    ts = [str(t[1]).split("::")[-1] for t in (e.ts or ()) if t and t[0] == "adt" and "Endian" in str(t[1])]
    w = last(e).split("_")[1] if "_" in last(e) else ""
    return ("" if w in ("u8", "i8") else "be") if not ts else {"BigEndian": "be", "LittleEndian": "le"}.get(ts[0], ts[0]) if w not in ("u8", "i8") else ""
def conn(fl, v):
    """the connect/accept event a stream comes from"""
    c = fl.closure(v, stop=lambda e: last(e) in ("connect", "connect_timeout", "connect_with", "accept"))
    for x in c:
        for y in fl.exts(x):
            e = fl.by.get(y)
            if e is not None and last(e) in ("connect", "connect_timeout", "connect_with", "accept", "open_bi", "accept_bi", "open_uni", "accept_uni"):
                if last(e) in ("open_bi", "accept_bi", "open_uni", "accept_uni"):
                    continue
                return e
    for x in c:
        for y in fl.exts(x):
            e = fl.by.get(y)
            if e is not None and last(e) in ("open_bi", "accept_bi"):
                return e
    return None
def side(e):
    return "C" if last(e) in ("connect", "connect_timeout", "connect_with", "open_bi") else "A"

class Station:
    """what one path does with one connection: the handshake and where the connection ends up"""
    def __init__(self, f, o, fl, c, ops):
        self.f, self.o, self.fl, self.c, self.ops = f, o, fl, c, ops
        self.index = self.key = self.slot = self.sess = None

def stations(R, f, outs, rep):
    out = []
    for o in outs:
        if o.kind == "panic" or o.kind == "ret" and (o.v is None or iserr(o.v)):
            continue
        fl = Flow(o)
        ops = {}
        for p in fl.prims():
            c = conn(fl, p[3])
            ops.setdefault(c.res if c is not None else root(p[3]), []).append(p)
        for r, ps in ops.items():
            s = Station(f, o, fl, fl.by.get(r), ps)
            if not place(s, r):
                if o.kind == "loop" and not any(e.p == "next" for e in retry(o)):
                    continue
                if any(known(o, e.res) == "err" for e, *_ in ps):
                    continue
                if s.c is not None:
                    s.lost = True
                    out.append(s)
                continue
            s.lost = False
            out.append(s)
    return out
def place(s, r):
    """where the connection r ends up on the path"""
    o, fl = s.o, s.fl
    def mine(v):
        c = conn(fl, v)
        return c is not None and c.res == r or root(v) == r or any(root(x) == r or x == r for x in fl.closure(v, stop=lambda e: last(e) in ("connect", "connect_timeout", "connect_with", "accept")) if x and x[0] in ("ext", "pay", "fld", "sym"))
    for e in o.st.ev:
        if e.p == "REGISTER" and (mine(e.args[2]) or mine(e.args[3])):
            s.index, s.key = netindex(e.args[0]), e.args[1]
            s.how = e
            return True
        if last(e) == "insert" and len(e.args) == 3 and mine(e.args[2]):
            s.key, s.how = e.args[1], e
            return True
        if e.p == "store" and len(e.args) == 2 and mine(e.args[1]):
            q = fl.by.get(root(e.args[0]))
            if q is not None and last(q) in ("or_insert", "or_insert_with", "or_default"):
                en = fl.by.get(root(q.args[0]))
                if en is not None:
                    s.key, s.how = en.args[1], e
                    s.slot = e.args[0][2] if e.args[0][0] == "fld" else None
                    ix = fl.by.get(root(en.args[0]))
                    s.index = ix.args[1] if ix is not None and len(ix.args) == 2 else None
                    return True
        if last(e) == "push" and len(e.args) == 2 and e.args[1][0] == "agg" and any(mine(x) for x in e.args[1][3]):
            s.key, s.how = e.args[1][3][0], e
            return True
        if last(e) == "send" and len(e.args) == 2 and e.args[1][0] != "sym" and mine(e.args[1]) or last(e) == "send" and len(e.args) == 2 and e.args[1] == r:
            q = fl.by.get(root(e.args[0]))
            if q is not None and len(q.args) == 2:
                s.key, s.how = q.args[1], e
                return True
    return False
def netindex(v):
    for x in subterms(v):
        if x and x[0] == "app" and x[1] == "elem":
            return x[3]
    return None

def role(s, k):
    """what the k-th handshake value is for"""
    e, d, kind, st, v = s.ops[k]
    fl, o = s.fl, s.o
    u = fl.uncast(v)
    if isown(u):
        return "own"
    key = s.key
    parts = [fl.uncast(x) for x in key[3]] if key is not None and key[0] == "agg" and key[1] == "tup" else [fl.uncast(key)] if key is not None else []
    if s.index is not None and fl.uncast(s.index) == u:
        return "index"
    if len(parts) == 2 and parts[0] == u:
        return "session"
    if u[0] == "sym" and u[1] == "session_id":
        return "session"
    if parts and parts[-1] == u:
        return "peer"
    for c, x in o.st.facts.items():
        if c[0] == "eq" and len(c) == 3:
            a, b = fl.uncast(c[1]), fl.uncast(c[2])
            for y, z in ((a, b), (b, a)):
                if y == u:
                    if parts and parts[-1] == z and x is True:
                        return "peer"
                    if z and (z[0] in ("const", "int") or z[0] == "sym" and str(z[1]).startswith("const ")) or z and z[0] == "app" and z[1] == "item":
                        return "slot"
    if u[0] == "app" and u[1] == "item":
        return "slot"
    return None
OPP = {"own": "peer", "peer": "own"}
def sel(s, k):
    """known outcome of comparing the k-th value with constants: {constant: bool}"""
    u = s.fl.uncast(s.ops[k][4])
    out = {}
    for c, x in s.o.st.facts.items():
        if c[0] == "eq" and len(c) == 3:
            for y, z in ((c[1], c[2]), (c[2], c[1])):
                if s.fl.uncast(y) == u:
                    out[z] = x
        elif s.fl.uncast(c) == u:
            for z in x if isinstance(x, frozenset) else [x]:
                if isinstance(z, int) and not isinstance(z, bool):
                    out[num(z)] = not isinstance(x, frozenset)
    return out

DELTAS = [-500, -300, -100] + list(range(-40, 41)) + [100, 300, 500]
def relation(s, outs=None):
    """possible values of sign(peer - own) on the path"""
    o, fl = s.o, s.fl
    pos = set()
    conds = []
    for c, x in o.st.facts.items():
        if c[0] in ("lt", "eq", "not") and x in (True, False):
            own = [y for y in subterms(c) if isown(y)]
            if own:
                conds.append((c, x, own[0]))
    for d in DELTAS:
        if all(holds(c, own, d) in (None, x) for c, x, own in conds):
            pos.add((d > 0) - (d < 0))
    return pos
def related(s):
    return any(c[0] in ("lt", "eq", "not") and any(isown(y) for y in subterms(c)) and any(x and x[0] == "ext" and str(x[2]) == "next" for x in subterms(c)) for c in s.o.st.facts)
def holds(c, own, d):
    def val(v):
        if v[0] == "int":
            return v[1]
        if v == own:
            return 1000
        if v[0] == "sum":
            t = 0
            for x, k in v[1]:
                if x is None:
                    t += k
                else:
                    y = val(x)
                    if y is None:
                        return None
                    t += k * y
            return t
        if v[0] in ("app", "fld", "ext", "pay", "sym") and not has(v, own):
            p = [x for x in subterms(v) if x and x[0] == "ext" and str(x[2]) == "next"]
            if p:
                return 1000 + d
        return None
    if c[0] == "not":
        h = holds(c[1], own, d)
        return None if h is None else not h
    a, b = val(c[1]), val(c[2])
    if a is None or b is None:
        return None
    return a < b if c[0] == "lt" else a == b

def handshakes(R, rep, info):
    """the two sides of every transport"""
    p = R.p
    groups = {}
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        mod = f.key.split("::")[1]
        nm = f.key.split("::")[-1]
        if nm in ("get", "insert") and "TcpStreams" in str(p.fns[f.key].body["tys"][1]):
            pass
        has_conn = any(last(e) in ("connect", "connect_timeout", "connect_with", "accept", "open_bi", "accept_bi") for o in outs for e in o.st.ev) or any(is_spawn(e) for o in outs for e in o.st.ev)
        if not has_conn:
            continue
        ss = stations(R, f, outs, rep)
        done = set()
        for o in outs:
            if o.kind == "panic":
                continue
            for e in o.st.ev:
                if is_spawn(e) and (f.key, e.args[-1][1]) not in done:
                    done.add((f.key, e.args[-1][1]))
                    try:
                        ss += stations(R, f, R.spawned(f, o, e), rep)
                    except Unsupported as x:
                        rep.unsure("N04", f, "unsupported: %s" % x)
        for s in ss:
            layer = "bi" if s.c is not None and last(s.c) in ("open_bi", "accept_bi") else "conn"
            groups.setdefault((mod, layer), []).append(s)
    n = 0
    for (mod, layer), ss in sorted(groups.items()):
        C = [s for s in ss if s.c is not None and side(s.c) == "C"]
        A = [s for s in ss if s.c is not None and side(s.c) == "A"]
        if not C or not A:
            rep.unsure("N04", ss[0].f, "handshake of %s/%s not recognised (%d connecting, %d accepting paths)" % (mod, layer, len(C), len(A)))
            continue
        n += len(ss)
        for s in ss:
            if s.lost:
                rep("N04", s.f, "connection kept", "a connection whose handshake succeeded is not registered anywhere")
        C, A = [s for s in C if not s.lost], [s for s in A if not s.lost]
        if not C or not A:
            continue
        seqs = {tuple((d, k) for _, d, k, _, _ in s.ops) for s in C}
        dual = {tuple(({"R": "W", "W": "R"}[d], k) for _, d, k, _, _ in s.ops) for s in A}
        fc, fa = C[0].f, A[0].f
        if len(seqs) > 1 or len(dual) > 1:
            full = max(seqs | dual, key=len)
            for s, q in [(s, q) for s in C for q in [tuple((d, k) for _, d, k, _, _ in s.ops)] if q != full] + [(s, q) for s in A for q in [tuple(({"R": "W", "W": "R"}[d], k) for _, d, k, _, _ in s.ops)] if q != full]:
                rep("N04", s.f, "same fields on both sides", "handshake fields differ: %s instead of %s" % (fmtseq(q), fmtseq(full)))
        elif seqs != dual:
            rep("N04", fa, "same fields on both sides", "the connecting side sends/reads %s, the accepting side expects %s" % (fmtseq(next(iter(seqs))), fmtseq(next(iter(dual)))))
        else:
            for k in range(len(next(iter(seqs)))):
                rc = {role(s, k) for s in C}
                ra = {OPP.get(role(s, k), role(s, k)) for s in A}
                if rc != ra:
                    if None in rc and len(rc) == 1:
                        rep.unsure("N04", fc, "field %d of the %s handshake: %s" % (k, mod, show(C[0].ops[k][4])))
                    else:
                        rep("N04", fa, "fields used for the same purpose", "field %d of the handshake is %s for the side that connects and %s for the side that accepts" % (k, "/".join(map(str, rc)), "/".join(str({v: w for w, v in OPP.items()}.get(x, x)) for x in ra)))
                if rc & {"slot"}:
                    slots(rep, R, C, A, k)
        # exactly one side connects
        rc, ra = set(), set()
        for s in C:
            rc |= relation(s)
        for s in A:
            if s.how.p != "send" or True:
                ra |= relation(s)
        inner = any("{closure" in s.c.fn for s in A) if False else False
        if layer == "conn" and any("Streams" in "" for _ in ()):
            pass
        acc = ra
        if mod.startswith("tcp_session"):
            acc = awaited_relation(R, mod, rep)
        rc.discard(0)
        if acc is not None:
            acc.discard(0)
        for f in {s.f.key: s.f for s in ss}.values():
            for o in R.run(f):
                if o.kind == "loop" and any(e.p == "next" for e in retry(o)) and not any(last(e) in ("connect", "connect_timeout", "connect_with", "accept", "open_bi", "accept_bi", "remove", "REGISTER") for e in retry(o)):
                    t = Station(f, o, None, None, [])
                    if related(t) and relation(t) - {0}:
                        rep("N04", f, "every peer connected", "a peer with an id %s its own is neither connected to nor accepted" % words(relation(t)))
        if len(rc) != 1:
            rep("N04", fc, "exactly one side connects", "a party connects to peers with ids %s its own" % words(rc))
        elif acc is not None and (len(acc) != 1 or acc == rc):
            rep("N04", fa, "exactly one side connects", "a party connects to peers with ids %s its own and waits for peers with ids %s its own" % (words(rc), words(acc)))
        for s in C:
            own_address(rep, R, s)
    rep.count("N04", "handshake fields, their purpose and the direction agree", n)
    return groups
def words(r):
    return "/".join({-1: "below", 0: "equal to", 1: "above"}[x] for x in sorted(r)) or "unrelated to"
def fmtseq(q):
    return " ".join("%s:%s" % x for x in q)
def slots(rep, R, C, A, k):
    """streams that are told apart by a number: one per direction, crossed between the two sides"""
    def table(ss):
        t = {}
        for s in ss:
            for z, x in sel(s, k).items():
                t.setdefault((z, x), set()).add(str(s.slot))
        return t
    tc, ta = table(C), table(A)
    consts = {z for z, _ in tc} | {z for z, _ in ta}
    D = sorted(consts, key=repr)
    if len(D) == 1:
        D.append(("another",))
    def at(ss, d):
        return {str(s.slot) for s in ss if all((z == d) == x for z, x in sel(s, k).items())}
    if any(z[0] != "int" for z in consts):
        if len({z for z, _ in tc} ^ {z for z, _ in ta}) > 0:
            rep.unsure("N04", A[0].f, "stream numbers are compared differently by the two sides")
            return
    for d in D:
        v, w = at(C, d), at(A, d)
        nm = "with number %s" % show(d) if d != ("another",) else "with another number"
        if len(v) > 1 or len(w) > 1:
            rep("N04", A[0].f, "streams told apart", "the stream %s does not select one direction" % nm)
        elif v and w and v == w:
            rep("N04", A[0].f, "streams told apart", "both sides use the stream %s in the same direction" % nm)
    for ss, nm in ((C, "connecting"), (A, "accepting")):
        vs = [at(ss, d) for d in D[:2]]
        if len(vs) == 2 and vs[0] and vs[0] == vs[1]:
            rep("N04", ss[0].f, "streams told apart", "the %s side uses both streams in the same direction" % nm)
def own_address(rep, R, s):
    """the connection stored for a party goes to that party's address"""
    nx = {x for x in subterms(s.key) if x and x[0] == "ext" and str(x[2]) == "next"} if s.key is not None else set()
    if not nx or s.c is None:
        return
    if last(s.c) not in ("connect", "connect_timeout", "connect_with"):
        return
    addr = s.c.args[-1] if last(s.c) == "connect" else s.c.args[0] if last(s.c) == "connect_timeout" else s.c.args[2]
    if not any(n in s.fl.exts(x) for x in s.fl.closure(addr) for n in nx):
        rep("N03", s.f, "connects to the party's own address", "the connection registered for %s goes to %s" % (show(s.key), show(addr)))
        return
    # an index stands for a party id only in a list sorted by id
    for x in subterms(s.key):
        if x and x[0] == "app" and x[1] == "index":
            src = [y for z in s.fl.closure(x[3]) for y in subterms(z)]
            if any(y and y[0] == "fld" and y[2] == "parties" for y in src):
                if not any(y and y[0] == "app" and str(y[1]).startswith("sorted") for y in src) and not any(last(e).startswith("sort") for e in s.o.st.ev):
                    rep("N03", s.f, "position stands for the party id", "the position in the configured list of parties is used as a party id without sorting the list by id")
def awaited_relation(R, mod, rep):
    out = set()
    for f in R.all():
        if f.key.split("::")[1] != mod or f.key.split("::")[-1] != "init_session":
            continue
        for o in R.run(f):
            fl = Flow(o)
            if o.kind != "loop" or not any(e.p == "next" for e in retry(o)):
                continue
            if any(last(e) == "remove" for e in o.st.ev) and any(last(e) == "insert" and len(e.args) == 3 for e in o.st.ev):
                s = Station(f, o, fl, None, [])
                out |= relation(s)
    return out or None

# ---------------------------------------------------------------------- which connection is registered for whom
def contributions(outs, C):
    """(path, key, [values]) put into container C on any path"""
    for o in outs:
        if o.kind == "panic":
            continue
        fl = Flow(o)
        for e in o.st.ev:
            if last(e) == "insert" and len(e.args) == 3 and base_(e.args[0]) == C:
                yield o, fl, e.args[1], [e.args[2]]
            elif last(e) in ("push", "push_back") and len(e.args) == 2 and base_(e.args[0]) == C and e.args[1][0] == "agg" and len(e.args[1][3]) > 1:
                yield o, fl, e.args[1][3][0], list(e.args[1][3][1:])
            elif e.p == "store" and len(e.args) == 2:
                q = fl.by.get(root(e.args[0]))
                if q is not None and last(q).startswith("or_"):
                    en = fl.by.get(root(q.args[0]))
                    ix = fl.by.get(root(en.args[0])) if en is not None else None
                    cont = ix.args[0] if ix is not None and len(ix.args) == 2 else en.args[0] if en is not None else None
                    if cont is not None and base_(cont) == C:
                        yield o, fl, en.args[1], [e.args[1]]
def base_(v):
    """a collection regardless of how often it was modified"""
    while v and v[0] == "app" and v[1] in ("collect", "upd", "iter", "iter_mut", "into_iter") :
        v = v[2]
    return v
def items(v):
    """(container, next) of the items v is part of"""
    return [(x[2], x[3]) for x in subterms(v) if x and x[0] == "app" and x[1] == "item" and len(x) == 4]
def belongs(R, outs, o, fl, key, vals, depth=0):
    """None when every value is a connection of party `key`, otherwise why not"""
    key = fl.uncast(key)
    for v in vals:
        c = fl.closure(v)
        k = key
        hit = False
        # part of the same item of a container filled by this function
        for C, n in items(key):
            for w in c:
                if (C, n) in items(w):
                    B = C
                    while B and B[0] == "app" and B[1] == "item":
                        B = B[2]
                    if B[0] == "sym":
                        return "param"
                    subs = list(contributions(outs, base_(B)))
                    if subs and depth < 3:
                        for o2, fl2, k2, v2 in subs:
                            r = belongs(R, outs, o2, fl2, k2, v2, depth + 1)
                            if r and r != "param":
                                return r
                        hit = True
                    elif fieldpath(base_(B)):
                        hit = True
        if hit:
            continue
        # the id was read from this very connection
        q = fl.by.get(k[1]) if k[0] == "pay" and k[1] in fl.by else None
        if q is not None and q.p == "await":
            q = fl.by.get(q.args[0])
        if q is not None and last(q).startswith("read_"):
            cc, cv = conn(fl, q.args[0]), conn(fl, v)
            if cc is not None and cv is not None and cc.res == cv.res or root(q.args[0]) == root(v):
                continue
            return "the party id %s is read from another connection than the one registered" % show(k)
        # looked up under the id
        nx = {x for x in subterms(k) if x and x[0] == "ext" and str(x[2]) == "next"}
        cv = conn(fl, v)
        if cv is not None and last(cv) in ("connect", "connect_timeout", "connect_with"):
            addr = cv.args[-1] if last(cv) == "connect" else cv.args[0] if last(cv) == "connect_timeout" else cv.args[2]
            if any(n in fl.exts(x) for x in fl.closure(addr) for n in nx):
                continue
            return "the connection registered for %s goes to %s" % (show(k), show(addr))
        keyed = [fl.by[x] for w in c for x in fl.exts(w) if x in fl.by and last(fl.by[x]) in ("remove", "get", "index")] 
        ch = [x for w in c for x in fl.exts(w) if x in fl.by and last(fl.by[x]) in ("bounded", "channel", "sync_channel", "unbounded")]
        for e in o.st.ev:
            if last(e) == "insert" and len(e.args) == 3 and any(has(e.args[2], x) for x in ch):
                keyed.append(e)
        if keyed and all(any(fl.uncast(y) == k for y in subterms(e.args[1])) for e in keyed):
            continue
        if keyed:
            return "the connection registered for %s is the one kept under %s" % (show(k), show(keyed[0].args[1]))
        if cv is not None and last(cv) == "accept":
            return "an accepted connection is registered for %s, which is not the id its peer announced" % show(k)
        return "unknown: %s for %s" % (show(v), show(k))
    return None

def registrations(R, rep):
    n = 0
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        for o in outs:
            fl = Flow(o)
            for e in o.st.ev:
                if e.p != "REGISTER":
                    continue
                n += 1
                r = belongs(R, outs, o, fl, e.args[1], e.args[2:4])
                if r and r.startswith("unknown"):
                    rep.unsure("N03", f, r)
                    rep.unsure("N06", f, r)
                elif r and r != "param":
                    rep("N03", f, "registered connection is the party's", r)
                    rep("N04", f, "registered connection is the party's", r)
                    rep("N06", f, "registered connection is the party's", r)
        # constructed networks know every registered peer: nothing is registered in a network that is not returned
    for pid in ("N03", "N06"):
        rep.count(pid, "the connection registered for a party is that party's", n)

# ---------------------------------------------------------------------- sessions
def guard(fl, v):
    """the lock acquisition a map reference comes from"""
    for x in fl.closure(v):
        for y in fl.exts(x):
            e = fl.by.get(y)
            if e is not None and last(e) in ("lock", "write", "read", "try_lock") and e.p.split("::")[0] in ("Mutex", "RwLock"):
                return e
    return None
def sessions(R, rep):
    n = 0
    for f in R.all():
        nm = f.key.split("::")[-1]
        mod = f.key.split("::")[1]
        if nm == "init_session":
            for o in R.run(f):
                fl = Flow(o)
                rm = [e for e in o.st.ev if last(e) in ("remove", "get", "remove_entry", "get_mut", "entry") and len(e.args) == 2 and guard(fl, e.args[0]) is not None]
                if o.kind == "panic":
                    continue
                own = [e for e in o.st.ev if last(e) == "insert" and len(e.args) == 3 and guard(fl, e.args[0]) is None]
                for e in own:
                    n += 1
                    k = e.args[1]
                    r = belongs(R, [], o, fl, k, [e.args[2]])
                    if r and r.startswith("unknown"):
                        rep.unsure("N06", f, r)
                    elif r:
                        rep("N06", f, "stream of the session and party", r)
                for e in rm + [e for e in o.st.ev if last(e) == "insert" and len(e.args) == 3 and guard(fl, e.args[0]) is not None]:
                    k = e.args[1]
                    if k[0] == "agg" and len(k[3]) == 2 and fl.uncast(k[3][0]) != ("sym", "session_id"):
                        rep("N06", f, "stream of the session and party", "a stream is looked up under session %s" % show(k[3][0]))
                    elif k[0] != "agg":
                        rep.unsure("N06", f, "streams are kept under %s" % show(k))
                for e in rm:
                    if last(e) != "remove" and last(e) != "remove_entry":
                        rep("N06", f, "no stream given out twice", "a stream is looked up with `%s` and stays available" % last(e))
                    w = [x for x in o.st.ev if last(x) == "insert" and len(x.args) == 3 and guard(fl, x.args[0]) is not None]
                    for x in w:
                        if guard(fl, x.args[0]).res != guard(fl, e.args[0]).res:
                            rep("N06", f, "check and registration under one lock", "the stream is looked up and the waiter registered under different lock acquisitions: a stream arriving in between is lost")
                        if x.args[1] != e.args[1]:
                            rep("N06", f, "stream of the session and party", "the waiter is registered under %s, the stream looked up under %s" % (show(x.args[1]), show(e.args[1])))
                # waiting without handing over the sending half, or on another channel
                wait = [e for e in o.st.ev if e.p == "await" or last(e) in ("recv", "recv_timeout", "blocking_recv")]
                if o.kind == "loop" and any(e.p == "next" for e in retry(o)) and not own:
                    s = Station(f, o, fl, None, [])
                    if related(s) and relation(s) - {0}:
                        rep("N06", f, "one stream for every other party", "a party with an id %s the own one gets no stream" % words(relation(s)))
        if mod.startswith("tcp_session") or nm == "new":
            seen = set()
            for o in R.run(f):
                for e in o.st.ev:
                    if not is_spawn(e) or e.args[-1][1] in seen:
                        continue
                    seen.add(e.args[-1][1])
                    try:
                        outs = R.spawned(f, o, e)
                    except Unsupported as x:
                        rep.unsure("N06", f, "unsupported: %s" % x)
                        continue
                    for w in outs:
                        n += 1
                        accepted(R, rep, f, w)
    rep.count("N06", "streams are kept and looked up under (session, party), under one lock, and taken out when used", n)
def truth(v, env):
    """value of a comparison of terms with the values given, None when unknown"""
    if v in env:
        return env[v]
    if v[0] in ("int", "bool"):
        return v[1]
    if v[0] == "sum":
        t = 0
        for x, k in v[1]:
            y = 1 if x is None else truth(x, env)
            if y is None:
                return None
            t += k * y
        return t
    if v[0] == "not":
        a = truth(v[1], env)
        return None if a is None else not a
    if v[0] in ("lt", "eq"):
        a, b = truth(v[1], env), truth(v[2], env)
        if a is None or b is None:
            return None
        return a < b if v[0] == "lt" else a == b
    return None
def accepted(R, rep, f, w):
    fl = Flow(w)
    ac = [e for e in w.st.ev if last(e) == "accept"]
    aw = {e.args[0]: e.res for e in w.st.ev if e.p == "await"}
    if w.kind == "ret" and ac:
        rep("N06", f, "connections keep being accepted", "the task that accepts connections ends after one of them")
    for e in w.st.ev:
        if last(e) == "retain":
            k = [x for x in w.st.ev if last(x) == "retain"]
            c = e.args[1]
            s2 = w.st.copy()
            s2.ev = ()
            zs = R.X.call_val(R.frame(f), s2, c, [("sym", "k"), ("sym", "v")], None)
            for z in zs:
                v = z.v
                if v is None or v == ("bool", True):
                    continue
                idle = [x for x in subterms(v) if x and x[0] in ("ext", "app") and any(has(y, ("fld", ("sym", "v"), "1")) or has(y, ("sym", "v")) for y in Flow(z).closure(x))]
                if not any(has(y, ("sym", "v")) for y in Flow(z).closure(v)):
                    rep("N06", f, "arrived stream kept", "the clean-up drops streams regardless of how long they have been waiting")
                    continue
                conf = [x for x in subterms(v) if fieldpath(x) and fieldpath(x)[1][-1] == "time_to_idle"]
                age = [x for x in subterms(v) if x and x[0] == "ext" and str(x[2]).split("::")[-1] in ("duration_since", "elapsed", "sub", "saturating_duration_since")]
                kept = truth(v, {age[0]: 3, conf[0]: 1000}) if conf and age else None
                if kept is None:
                    rep.unsure("N06", f, "the clean-up keeps streams when %s" % show(v))
                elif not kept:
                    rep("N06", f, "arrived stream kept", "the clean-up drops the streams that have waited less than the configured time")
    if not ac:
        return
    stream = None
    reads = [p for p in fl.prims() if p[1] == "R"]
    if len(reads) < 2 or any(known(w, aw.get(p[0].res, p[0].res)) != "ok" for p in reads):
        return
    stream = reads[0][3]
    rm = [e for e in w.st.ev if last(e) in ("remove", "get", "remove_entry", "entry", "get_mut") and len(e.args) == 2 and guard(fl, e.args[0]) is not None]
    ins = [e for e in w.st.ev if last(e) == "insert" and len(e.args) == 3 and guard(fl, e.args[0]) is not None]
    snd = [e for e in w.st.ev if last(e) == "send" and len(e.args) == 2 and e.args[1] == stream or last(e) == "send" and len(e.args) == 2 and root(e.args[1]) == root(stream)]
    if not rm and not ins:
        if w.kind != "panic" and not any(known(w, e.res) == "err" for e in w.st.ev) and not failures(w):
            rep("N06", f, "arrived stream kept", "an accepted stream is dropped")
        return
    if reads[0][0].p.startswith("ReadBytesExt") and any(x[0] == "init_session_timeout" for k, a in R.p.adts.items() if k.startswith("::".join(f.key.split("::")[:2]) + "::") and k.endswith("NetworkConfig") for x in a["variants"][0][1]):
        q = setting(w, reads[0][0], "set_read_timeout")
        if q is None:
            rep("N05", f, "announcement bounded", "the announcement of an accepted connection is waited for without a bound although one may be configured")
        else:
            expect(R, rep, "N05", f, "the bound on the announcement of an accepted connection", q.args[1], CT, w.st)
        rep.count("N05", "announcements on accepted connections are read within the configured bound", 1)
    R1 = [fl.uncast(p[4]) for p in reads]
    for e in rm + ins:
        k = e.args[1]
        if k[0] == "agg" and len(k[3]) == 2:
            ks = [fl.uncast(x) for x in k[3]]
            bits = [next((p[2] for p in reads if fl.uncast(p[4]) == x), None) for x in ks]
            if None in bits:
                rep("N06", f, "kept under what the peer announced", "an accepted stream is kept under %s" % show(k))
    for e in ins:
        if rm and guard(fl, e.args[0]).res != guard(fl, rm[0].args[0]).res:
            rep("N06", f, "check and registration under one lock", "the waiter is looked up and the stream stored under different lock acquisitions: a waiter registered in between waits for ever")
        if rm and e.args[1] != rm[0].args[1]:
            rep("N06", f, "kept under what the peer announced", "the waiter is looked up under %s, the stream stored under %s" % (show(rm[0].args[1]), show(e.args[1])))
    if w.kind == "panic":
        return
    held = [e for e in ins if has(e.args[2], root(stream)) or has(e.args[2], stream)] + snd
    if not held:
        rep("N06", f, "arrived stream kept", "an accepted stream is neither stored nor handed to the one waiting for it")
    waiter = [(c, v) for c, v in w.st.facts.items() if c[0] == "disc" and rm and root(c[1]) == rm[0].res]
    taken = w.st.facts.get(("disc", rm[0].res)) if rm else None
    if snd and taken == 0:
        rep("N06", f, "arrived stream kept", "a stream is handed over although nobody waits for it")

# ---------------------------------------------------------------------- certificates
def certificates(R, rep, info):
    n = 0
    danger = set()
    for k, f in sorted(R.p.fns.items()):
        if not k.startswith("mpc_net::") or f.body is None:
            continue
        for bb in f.body["bbs"]:
            for c in calls_of(bb):
                if "dangerous" in c or "with_custom_certificate_verifier" in c or "set_certificate_verifier" in c or "SkipServerVerification" in c:
                    rep("N07", f, "no custom verifier", "installs its own certificate verifier (%s)" % c)
    for im in R.p.impls:
        if im["crate"] == "mpc_net" and im["trait"] and im["trait"].split("::")[-1] in ("ServerCertVerifier", "ClientCertVerifier"):
            rep("N07", next(f for k, f in R.p.fns.items() if k.startswith("mpc_net::")), "no custom verifier", "mpc_net implements %s" % im["trait"])
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        stores = {}
        for o in outs:
            fl = Flow(o)
            for e in o.st.ev:
                if last(e) == "add" and len(e.args) == 2 and root(e.args[0])[0] == "ext" and "RootCertStore" in str(root(e.args[0])[2]):
                    n += 1
                    stores.setdefault(root(e.args[0]), []).append((o, e))
                    if not certs_of(fl, e.args[1]):
                        rep("N07", f, "roots are the configured certificates", "the root store gets %s" % show(e.args[1]))
                    if known(o, e.res) == "err" and o.kind == "loop":
                        rep("N07", f, "roots are the configured certificates", "a certificate that cannot be added to the root store is skipped")
                    if e in dropped(o):
                        rep("N07", f, "roots are the configured certificates", "the result of adding a certificate to the root store is ignored")
                    part = [x for x in subterms(e.args[1]) if x and x[0] == "app" and x[1] in ("skip", "take", "filter", "step_by", "filter_map", "rev")]
                    part += [x for z in fl.closure(e.args[1]) for x in subterms(z) if x and x[0] == "app" and x[1] in ("skip", "take", "filter", "step_by", "filter_map")]
                    if part:
                        rep("N07", f, "every configured certificate is a root", "only some of the configured certificates are put into the root store")
        for o in outs:
            fl = Flow(o)
            for e in o.st.ev:
                if last(e) in ("with_root_certificates",):
                    n += 1
                    s = root(e.args[1])
                    if s not in stores and not any(x in stores for z in fl.closure(e.args[1]) for x in fl.exts(z)):
                        rep("N07", f, "roots are the configured certificates", "the client trusts %s, to which no configured certificate was added" % show(e.args[1]))
                if last(e) == "with_single_cert":
                    n += 1
                    chain, key = e.args[-2], e.args[-1]
                    cl = fl.closure(chain)
                    stored = [x.args[1] for x in o.st.ev if x.p == "store" and root(x.args[0]) in {y for z in cl for y in fl.exts(z)}]
                    cl = cl + [y for z in stored for y in fl.closure(z)]
                    idx = []
                    for x in cl:
                        q = fl.by.get(x)
                        if q is not None and last(q) in ("index", "get") and len(q.args) == 2 and certs_of(fl, q.args[0]):
                            idx.append(q.args[1])
                        for y in subterms(x):
                            if y and y[0] == "app" and y[1] == "elem" and certs_of(fl, y[2]):
                                idx.append(y[3])
                            q = fl.by.get(y)
                            if q is not None and last(q) in ("index", "get") and len(q.args) == 2 and certs_of(fl, q.args[0]):
                                idx.append(q.args[1])
                    if not idx:
                        if not any(certs_of(fl, x) for x in cl):
                            rep("N07", f, "presents its own certificate", "the server presents %s, not a configured certificate" % show(chain))
                        else:
                            rep.unsure("N07", f, "server certificate chain %s" % show(chain))
                    for i in idx:
                        if not isown(fl.uncast(i)):
                            rep("N07", f, "presents its own certificate", "the server presents the certificate number %s instead of its own" % show(i))
                    kf = [x for z in fl.closure(key) for x in subterms(z) if conf_field(x, "key")]
                    if not kf:
                        rep("N07", f, "uses the configured key", "the server's key is %s" % show(key))
                name = None
                if e.p == "ClientConnection::new" and len(e.args) == 2:
                    name = (e.args[1], e.args[0])
                elif last(e) == "connect_with" and len(e.args) == 4:
                    name = (e.args[3], e.args[1])
                elif last(e) == "connect" and e.p.startswith("Endpoint"):
                    rep("N07", f, "authenticated client", "connects with the endpoint's default client configuration")
                if name:
                    n += 1
                    nm, conf = name
                    if not any(last(fl.by[x]) == "with_root_certificates" for z in fl.closure(conf) for x in fl.exts(z) if x in fl.by):
                        rep("N07", f, "authenticated client", "the client's configuration %s does not come from the configured root store" % show(conf))
                    h = [x for z in fl.closure(nm) for x in subterms(z) if x and x[0] == "fld" and x[2] == "hostname"]
                    if not h:
                        rep("N07", f, "server name checked", "the server is authenticated as %s, not as the configured host name of the party" % show(nm))
                    else:
                        # name and connection of the same party
                        nx = {y for x in h for y in subterms(x) if y and y[0] == "ext" and str(y[2]) == "next"}
                        tcp = [e.args[2]] if last(e) == "connect_with" else []
                        for q in o.st.ev:
                            if last(q) == "new" and q.p.startswith("StreamOwned") and any(e.res in fl.exts(z) for z in fl.closure(q.args[0])):
                                c = conn(fl, q.args[1])
                                if c is not None and last(c) in ("connect", "connect_timeout"):
                                    tcp.append(c.args[0] if last(c) == "connect_timeout" else c.args[-1])
                        nx = {y for z in fl.closure(nm) for y in fl.exts(z) if str(y[2]) == "next"} | nx
                        for a in tcp:
                            if not any(y in fl.exts(z) for z in fl.closure(a) for y in nx):
                                rep("N07", f, "server name checked", "the host name checked is not that of the party connected to")
    rep.count("N07", "roots, presented certificate, key and server name are the configured ones", n)
    if not n:
        raise Missing("TLS configuration in mpc_net")
def certs_of(fl, v):
    return any(conf_field(x, "certs") for z in fl.closure(v) for x in subterms(z))
def conf_field(x, name):
    """x is the field `name` of the configuration (possibly below an Option)"""
    return bool(x) and x[0] == "fld" and x[2] == name and root(x)[0] == "sym"
def calls_of(bb):
    t = bb.get("term") if isinstance(bb, dict) else bb[-1]
    out = []
    st = [bb]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "p" in x and isinstance(x["p"], str):
                out.append(x["p"])
            st.extend(x.values())
        elif isinstance(x, (list, tuple)):
            st.extend(x)
    return out

# ---------------------------------------------------------------------- flushing at drop, stream wrappers, ignored results
def drops(R, rep, info):
    p = R.p
    for tk, d in info.items():
        if tk.endswith("LocalNetwork"):
            continue
        im = next((im for im in p.impls if im["trait"] and im["trait"].endswith("::Drop") and adtof(im["self"]) == tk), None)
        anchor = next(fs for t, fs in ((t, f) for t, f in R.N.tr) if t == tk)["send"]
        if im is None:
            # the channels may flush themselves when dropped
            ow = d.get("owner")
            im = next((im for im in p.impls if im["trait"] and im["trait"].endswith("::Drop") and adtof(im["self"]) == ow), None)
        if im is None:
            rep("N02", anchor, "flushed at drop", "%s no longer writes out queued messages when it is dropped" % tk.split("::", 1)[1])
            continue
        f = p.fns[im["items"]["drop"][1]]
        X = Paths(p)
        def fl(X, fr, st, a, args, loc):
            from ..paths import Out
            outs = []
            for v in (0, 1):
                s = st.copy()
                e = X.emit(s, "FLUSH", tuple(X.full(s, x) for x in args), None, loc, (), fr)
                s.facts[("disc", e.res)] = v
                outs.append(Out("ret", s, ("agg", RES, v, (("pay", e.res, v, 0),))))
            return outs
        for k in R.flushes:
            X.ov[k] = fl
        outs = X.run(f, [("sym", "self")])
        n = 0
        for o in outs:
            if o.kind == "panic":
                continue
            n += 1
            ok = any(e.p == "FLUSH" for e in o.st.ev)
            for e in o.st.ev:
                if is_spawn(e):
                    s = o.st.copy()
                    s.ev, s.loops = (), ()
                    c = e.args[-1]
                    fr = R.frame(f)
                    zs = X.await_(fr, s, c, None) if c[0] == "cor" else X.call_val(fr, s, c, [], None)
                    if all(any(q.p == "FLUSH" for q in z.st.ev) for z in zs if z.kind != "panic"):
                        waited = any(last(q) == "join" and any(has(a, e.res) for a in q.args) for q in o.st.ev) or "Scope" in str(e.raw) or "scope" in str(e.raw) or any(last(q) == "scope" for q in o.st.ev)
                        if not waited:
                            rep("N02", f, "flushed at drop", "the drop does not wait for the thread that flushes")
                        ok = True
            if not ok:
                rep("N02", f, "flushed at drop", "%s can be dropped without writing out queued messages" % tk.split("::", 1)[1])
        rep.ok("N02", f, "every path of the drop flushes", n)

def wrappers(R, rep):
    """stream wrappers pass reads, writes and their results on"""
    p = R.p
    for im in p.impls:
        if im["crate"] != "mpc_net" or not im["trait"] or im["trait"].split("::")[-1] not in ("Read", "Write", "AsyncRead", "AsyncWrite") or im["self"][0] != "adt":
            continue
        for nm, it in im["items"].items():
            f = p.fns.get(it[1]) if it and it[0] == "it" else None
            if f is None or f.body is None:
                continue
            try:
                outs = Paths(p).run(f)
            except Unsupported as e:
                rep.unsure("N02", f, "unsupported: %s" % e)
                continue
            buf = ("sym", Paths.argname(None, f, 1)) if f.body["argc"] > 1 else None
            for o in outs:
                if o.kind != "ret":
                    continue
                fails = failures(o)
                inner = [e for e in o.st.ev if Types(o).isres(e.res)]
                if isok(o.v):
                    if fails:
                        rep("N02", f, "stream failure passed on", "%s reports success although %s failed" % (nm, show(fails[0])))
                    if not any(known(o, e.res) == "ok" for e in inner):
                        rep("N02", f, "stream result passed on", "%s reports success without the underlying stream's" % nm)
                    if nm in ("write", "read"):
                        v = o.v[3][0]
                        if not any(has(v, e.res) for e in inner) and not all(last(e) in ("write_all", "read_exact") for e in inner):
                            rep("N02", f, "stream result passed on", "%s reports %s bytes" % (nm, show(v)))
                elif not iserr(o.v) and not any(o.v == e.res or has(o.v, e.res) for e in inner):
                    rep.unsure("N02", f, "%s returns %s" % (nm, show(o.v)))
                d = dropped(o)
                if d:
                    rep("N02", f, "stream result passed on", "%s ignores the result of %s" % (nm, d[0]))
                want = {"write": ("write", "write_all"), "read": ("read",), "flush": ("flush",)}.get(nm)
                if want and inner and not any(last(e) in want for e in inner):
                    rep("N02", f, "stream call passed on", "%s calls %s on the underlying stream" % (nm, last(inner[0])))
                if nm == "write_vectored" and isok(o.v):
                    vec_total(rep, f, o)
            rep.ok("N02", f, "result of the underlying stream passed on", len(outs))
def vec_total(rep, f, o):
    """a vectored write that reports more than one slice has written them all"""
    fl = Flow(o)
    w = [e for e in o.st.ev if last(e) in ("write", "write_all", "write_vectored")]
    if not w:
        return
    v = o.v[3][0]
    for e in w:
        if last(e) == "write_all" and known(o, e.res) == "ok":
            pass
        elif last(e) == "write" and not has(v, e.res):
            rep("N02", f, "bytes written reported", "write_vectored reports %s bytes, not what the stream accepted" % show(v))

def ignored(R, rep):
    """handshake steps whose result nobody looks at"""
    n = 0
    for f in R.all():
        try:
            outs = R.run(f)
        except Unsupported:
            continue
        for o in outs:
            fl = Flow(o)
            pr = fl.prims()
            if not pr:
                continue
            n += 1
            aw = {e.args[0]: e for e in o.st.ev if e.p == "await"}
            evs = {id(aw.get(p[0].res, p[0])) for p in pr}
            for e in dropped(o):
                if id(e) in evs:
                    rep("N04", f, "handshake result looked at", "the result of %s is ignored" % e)
            if o.kind == "ret" and isok(o.v) or o.kind == "loop" and any(e.p == "next" for e in retry(o)):
                for p in pr:
                    r = aw[p[0].res].res if p[0].res in aw else p[0].res
                    if known(o, r) == "err":
                        rep("N04", f, "handshake failure reported", "goes on after %s failed" % p[0])
            for p in pr:
                if isasync(p[0]) and p[0].res not in aw and o.kind != "panic":
                    rep("N04", f, "handshake step performed", "%s is never awaited" % p[0])
    rep.count("N04", "handshake steps are performed and their results looked at", n)

def extra(R, rep, info):
    handshakes(R, rep, info)
    registrations(R, rep)
    sessions(R, rep)
    certificates(R, rep, info)
    drops(R, rep, info)
    wrappers(R, rep)
    ignored(R, rep)

# ---------------------------------------------------------------------- properties
def stages(cx, pid):
    def guarded(name, g, *a):
        try:
            return g(*a)
        except Missing as e:
            cx.unsure(name, "anchor", "not there: %s" % e)
        except Unsupported as e:
            cx.unsure(name, "analysis", "unsupported construct: %s" % e)
        except Exception as e:
            cx.unsure(name, "analysis", "internal: %r" % (e,))
    N, rep, info = methods(cx, pid)
    if not info:
        raise Missing("mpc_net: an implementation of Network")
    guarded("loops", loops, N, rep, info)
    R = Roots(N, info)
    global CUR
    CUR = R
    OWNED.clear()
    for f in list(R.all()):
        guarded(f.key, R.run, f)
    default = guarded("configuration", configuration, R, rep, info)
    for name, g in (("codecs", lambda: codecs(R, rep, default)), ("connecting", lambda: connecting(R, rep)), ("accepted_sockets", lambda: accepted_sockets(R, rep)),
                    ("handshakes", lambda: handshakes(R, rep, info)), ("registrations", lambda: registrations(R, rep)),
                    ("sessions", lambda: sessions(R, rep)), ("certificates", lambda: certificates(R, rep, info)), ("drops", lambda: drops(R, rep, info)),
                    ("wrappers", lambda: wrappers(R, rep)), ("ignored", lambda: ignored(R, rep))):
        guarded(name, g)
def N01(cx): stages(cx, "N01")
def N02(cx): stages(cx, "N02")
def N03(cx): stages(cx, "N03")
def N04(cx): stages(cx, "N04")
def N05(cx): stages(cx, "N05")
def N06(cx): stages(cx, "N06")
def N07(cx): stages(cx, "N07")
