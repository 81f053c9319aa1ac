"""Runs one property's check: dump (if stale), analyse, report, write evidence."""
import hashlib, json, os, subprocess, sys, time, traceback

def dump(V, full=False):
    r = subprocess.run([os.path.join(V, "tools", "dump.sh")] + (["full"] if full else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def known(V, pid):
    out = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[8:].split(" | ")[0].split())
                if f.get("property") == pid:
                    out.append((f["key"], l.split(" | ", 1)[1] if " | " in l else ""))
    except FileNotFoundError:
        pass
    return out

def main(V, argv, out):
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other"}
    vio, cx, fatal, partial = [], None, None, None
    from .specs.index import FULL
    full = pid in FULL
    if "--no-dump" not in argv:
        rc, log = dump(V, full)
        if rc and full and dump(V)[0] == 0:
            # what needs the stubs does not type-check with them, the rest of the tree does: nothing can be said
            partial = "the parts that need the stubbed dependencies do not type-check: " + log[-1500:]
        elif rc:
            fatal = "the tree does not type-check: " + log[-1500:]
    try:
        if fatal is None and partial is None:
            from .prog import load
            from .spec import Ctx, Missing, Unclear
            from .interp import Unsupported
            from .specs.index import CHECKS
            P = load(os.path.join(os.environ.get("VERIF_CACHE", os.path.join(V, ".cache")), "mirfull" if full else "mir"))
            cx = Ctx(P, pid, tier)
            for part in parts(CHECKS[pid]):
                try:
                    part(cx)
                except Missing as e:
                    cx.bad(str(e), "anchor", "the construct this property is about is gone: %s" % e)
                except Unclear as e:
                    cx.unsure(getattr(part, "__name__", "?"), "anchor", "not there: %s" % e)
                except Unsupported as e:
                    if "-v" in argv:
                        traceback.print_exc()
                    cx.unsure(getattr(part, "__name__", "?"), "analysis", "unsupported construct: %s" % e)
                except RecursionError as e:
                    cx.unsure(getattr(part, "__name__", "?"), "analysis", "recursion")
                except Exception as e:
                    # a construct the analyser does not model: nothing is claimed about it, nothing is alarmed
                    if "-v" in argv:
                        traceback.print_exc()
                    cx.unsure(getattr(part, "__name__", "?"), "analysis", "internal: %r" % (e,))
            vio = cx.violations
    except Exception as e:
        fatal = traceback.format_exc()
    kn = known(V, pid)
    new = []
    for v in vio:
        k = "%s/%s" % (v["function"], v["rule"])
        key = hashlib.sha1(k.encode()).hexdigest()[:12]
        v["key"] = key
        hit = [d for kk, d in kn if kk == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["function"], hit[0] or v["what"]))
            v["known"] = True
        else:
            new.append(v)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    path = os.path.join(V, "evidence", pid + ".json")
    cov = {"explanation": ""}
    if cx is not None:
        cov["explanation"] = ("static analysis of the MIR of /repo's current tree: %d functions summarised (%d call sites, %d loops solved); %d obligations discharged, "
                              "%d undecided, %d violated" % (len(cx.inlined), cx.calls, cx.loops, len(cx.obligations), len(cx.undecided), len(vio)))
        cov["functions_analysed"] = sorted(cx.inlined)
        cov["obligations"] = cx.obligations
        cov["undecided"] = cx.undecided
        cov["external_callees"] = sorted(cx.external)
        cov["seconds_per_function"] = cx.timings
        cov.update(getattr(cx, "extra", {}))
    else:
        cov["explanation"] = "analysis did not start: " + str(fatal or partial)[:1500]
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    if vio:
        ev["violations"] = vio
    if fatal:
        ev["assumptions"] = ["tool failure: " + fatal[:2000]]
    json.dump(ev, open(path, "w"), indent=1, default=str)
    if partial:
        print("undecided: " + partial)
    for o in (cx.undecided if cx else ()):
        print("undecided: %s: %s: %s" % (o["function"], o["rule"], o["why"]))
    if fatal:
        # the tree does not build or the analyser itself failed: nothing was shown
        print(fatal)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        out["rc"] = 1
        return
    for v in new:
        print("violated: %s (%s): %s: %s [key %s]" % (v["function"], v["file"], v["rule"], v["what"], v["key"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        out["rc"] = 1
    else:
        print("property=%s held: %s" % (pid, cov["explanation"]))
        out["rc"] = 0

def parts(c):
    return c if isinstance(c, (list, tuple)) else [c]
