"""Analysis of routine instances against their contracts; shared by the checks."""
import itertools, sys, time, signal, traceback, resource
from fractions import Fraction
import isl
from entry import *
import spec as SP
from spec import *
import spec_blas
try:
    import spec_lapack
except ImportError:
    spec_lapack = None

HAVOC = ("havoc", "tmp", "head", "ap")


class Limit(Exception):
    pass


def instances(P, names=None, skip=()):
    """one function per (template, parameter letters)"""
    seen = set()
    out = []
    for f in P.fns:
        if not f or not f.get("root") or f.get("body") is None or (f.get("rec") is not None and f.get("m")):
            continue
        if names is not None and f["n"] not in names:
            continue
        fl = P.file(f)
        if "/tlapack/" not in fl or "/plugins/" in fl or "/legacy_api/" in fl:
            continue
        sp = SP.find(P, f)
        if sp is None or not sp.entry:
            continue
        rec = tuple(str(P.base(p["t"]).get("name")).split("::")[-1] for p, c in zip(f["params"], f["_letters"]) if c in "OUSDFVN" and P.base(p["t"])["k"] == "rec")
        key = (fl, f["line"], f["_letters"], rec)
        if key in seen:
            continue
        seen.add(key)
        out.append((f, sp))
    return out


def iscomplex(P, f):
    for p in f["params"]:
        t = P.base(p["t"])
        if "complex" in t.get("s", "") or "complex" in t.get("name", ""):
            return True
    return False


# option values that select an algorithm
VARIANTS = {"PotrfVariant": [66, 82, 50, 51], "GetrfVariant": [48, 82], "GetriVariant": [68, 67], "HetrfVariant": [66]}
VARIANTS.update({"QRIterationVariant": [77, 68]})
VARIANTS.update({n + "Variant": [50, 66] for n in ("Bidiag", "GenHouseholderQ", "Hessenberg", "HouseholderLQ", "HouseholderQL", "HouseholderQR", "HouseholderRQ", "HouseholderQMul")})


def allfields(P, ty):
    """field declarations by name, those of the bases too"""
    out = {}
    for b in ty.get("bases", ()):
        out.update(allfields(P, P.base(b)))
    out.update({x["n"]: x for x in ty.get("fields", ())})
    return out


def combos(P, f, sp, tier="quick"):
    """documented option values of an instance"""
    ax = []
    for p, c in zip(f["params"], f["_letters"]):
        ty = P.base(p["t"])
        if c in "OUSDFVN" and ty["k"] == "enum":
            vals = SP.documented(P, f, sp, f["params"].index(p), c)
            ax.append([(p["n"] or "?", v) for v in vals])
        elif c == "b":
            ax.append([(p["n"], True), (p["n"], False)])
        elif c == "o" and ty["k"] == "rec" and "fields" in ty:
            fs = allfields(P, ty)
            alt = []
            if "nb" in fs:
                alt = [("nb", v) for v in sp.opts.get("nb", [3] if tier == "quick" else [3, 1, 2])]
            if "variant" in fs:
                vs = VARIANTS.get((P.base(fs["variant"]["t"]).get("name") or "").split("::")[-1])
                if vs:
                    alt = [(a + ("variant", v)) for v in vs for a in (alt or [()])]
            if alt:
                ax.append([(p["n"], a) for a in alt])
    for cb in itertools.product(*ax):
        d = dict(cb)
        lim = sp.opts.get("only")
        if lim and not lim(d, f):
            continue
        yield d


def optname(f, d):
    out = []
    for p, c in zip(f["params"], f["_letters"]):
        if p["n"] in d:
            v = d[p["n"]]
            out.append("%s=%s" % (p["n"], NAMES[c].get(v, v) if c in NAMES else v if not isinstance(v, tuple) else ":".join(map(str, v))))
    return ",".join(out)


class Run:
    """one analysed instance"""


def prepare(P, f, sp, opts, neg=None, fuel=150000, conds=(), autosplit=False, hull=0, copts=None):
    I = Eval(P, maxdepth=14)
    I.fuel = fuel
    I.infos = []
    I.nocontract = set()
    I.complex_ = any(("complex" in (P.base(p["t"]).get("s", ""))) for p in f["params"])
    I.callhook = lambda ff, lvs, st, e: SP.callhook(I, ff, lvs, st, e)
    ropts = {}
    for k, v in opts.items():
        if isinstance(v, tuple):
            continue
        ropts[k] = v
    c, st = mkargs(I, f, ropts)
    for p, a in zip(f["params"], c.args):
        o = opts.get(p["n"])
        if isinstance(o, tuple) and isinstance(c.by[p["n"]], Rec):
            v = c.by[p["n"]]
            for k, x in zip(o[::2], o[1::2]):
                v = v.set(k, L(x))
            c.by[p["n"]] = v
            st.st[a[3][1]] = v
    args = []
    for p, let in zip(f["params"], f["_letters"]):
        v = c.by[p["n"] or "arg%d" % len(args)]
        if let in "OUSDFVNH":
            ov = optval(v)
            if ov is None:
                ty = P.base(p["t"])
                if ty["k"] == "rec":
                    ov = OPV.get(ty["name"].split("::")[-1])
            v = ov if ov is not None else v
            if copts and p["n"] in copts:
                v = copts[p["n"]]
        args.append(v)
    con = Con(I, st, "assume", f, sp, neg)
    n = sp.fn.__code__.co_argcount - 1
    sp.fn(con, *(args + [None] * n)[:n])
    for q in conds:
        st.ctx = st.ctx & q
    I.autosplit = autosplit
    I.hull = hull
    R = Run()
    R.I, R.c, R.st, R.con, R.f, R.opts = I, c, st, con, f, opts
    R.args = args
    R.ctx0 = st.ctx
    return R


def execute(R, seconds=30):
    def al(*a):
        raise Limit()
    old = signal.signal(signal.SIGALRM, al)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2)
    t = time.time()
    R.outs = []
    R.status = "ok"
    try:
        if R.I.dead(R.st):
            R.status = "vacuous"
        else:
            R.outs = run(R.I, R.f, R.c, R.st)
    except Stop as x:
        R.status = "stop: %s" % x
    except Split as x:
        R.status = "split"
        R.sets = x.sets
    except Limit:
        R.status = "time"
    except IslError:
        R.status = "isl"
    except RecursionError:
        R.status = "recursion"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if R.status != "ok":
        R.where = "%s:%d" % (R.I.curfile.split("/")[-1], R.I.curline)
    R.t = time.time() - t
    return R


# ------------------------------------------------------------ judging
def definite(I, X, preds=True):
    """'no' (empty), 'yes' with witness, or 'unknown'"""
    if X is FALSE:
        return "no", None
    if X is TRUE:
        return "yes", {}
    if X.empty():
        return "no", None
    ps = X.params()
    for n in ps:
        sy = I.syms.get(n)
        if sy and sy.kind == "dim":
            X = X & parse([n], "%s <= 1000000000" % n)
    if X.empty():
        return "no", None
    kinds = {}
    for n in ps:
        sy = I.syms.get(n) or I.syms.get(n.rstrip("p"))
        kinds[n] = sy.kind if sy else "tmp"
    bad = [n for n in ps if kinds[n] in HAVOC]
    if bad:
        # symbols that do not matter
        Y = X.project(bad)
        if not Y.subset(X):
            return "unknown", None
        X = Y
    if not preds and any(k in ("pred", "data") for n, k in kinds.items()):
        pn = [n for n in ps if kinds[n] in ("pred", "data")]
        Y = X.project(pn)
        if not Y.subset(X):
            return "unknown", None
    opq = [n for n in ps if kinds[n] == "opq"]
    if opq:
        fac = set()
        for n in opq:
            x = I.syms[n].x
            if not isinstance(x, tuple) or x[0] != "mono":
                return "unknown", None
            fac |= set(x[1:])
        fac = sorted(fac)
        if len(fac) > 4:
            return "unknown", None
        for vals in itertools.product(range(0, 4), repeat=len(fac)):
            d = dict(zip(fac, vals))
            Z = X
            for n, v in d.items():
                Z = Z & parse([n], "%s = %d" % (n, v))
            for n in opq:
                p = 1
                for q in I.syms[n].x[1:]:
                    p *= d[q]
                Z = Z & parse([n], "%s = %d" % (n, p))
            if not Z.empty():
                return "yes", Z.sample()
        return "unknown", None
    return "yes", X.sample()


def witness(I, w):
    if not w:
        return ""
    out = []
    for n, v in sorted(w.items()):
        sy = I.syms.get(n)
        if sy and sy.kind == "dim":
            out.append("%s=%d" % (n, v))
    return ", ".join(out)


def where(e):
    fl = e.loc[0]
    if "/tlapack/" in fl:
        fl = "include/tlapack/" + fl.split("/tlapack/", 1)[1]
    return "%s:%d (%s)" % (fl, e.loc[1], e.fn["n"] if e.fn else "?")


class Finding:
    def __init__(s, pid, rule, e, msg, key):
        s.pid = pid
        s.rule = rule
        s.where = where(e) if not isinstance(e, str) else e
        s.msg = msg
        s.key = key

    def __repr__(s):
        return "%s %s at %s: %s" % (s.pid, s.rule, s.where, s.msg)


class Judge:
    def __init__(s, R, props):
        s.R = R
        s.I = R.I
        s.props = props
        s.found = []
        s.n = {"obligations": 0, "proved": 0, "unknown": 0}
        s.inst = "%s[%s]" % (R.f["n"], optname(R.f, R.opts))

    def test(s, pid, rule, e, ctx, cond, what, preds=True):
        s.n["obligations"] += 1
        try:
            X = ctx - cond if cond is not None else ctx
            r, w = definite(s.I, X, preds)
        except IslError:
            r = "unknown"
        if r == "no":
            s.n["proved"] += 1
            return True
        if r == "unknown" or not (isinstance(e, str) or e.exact):
            s.n["unknown"] += 1
            return False
        s.found.append(Finding(pid, rule, e, "%s: %s%s" % (s.inst, what, (" when " + witness(s.I, w)) if witness(s.I, w) else ""), "%s/%s/%s" % (s.R.f["n"], rule, where(e).split(" ")[0].split("/")[-1].split(":")[0] + ":" + (e.fn["n"] if e.fn else "?"))))
        return False

    def allowed(s, lst, root, r, c):
        """set of valuations where root element (r,c) is in one of the regions"""
        out = FALSE
        for v, reg in lst:
            if v.root.id != root.id:
                continue
            out = out | (reg(r, c) if v.rank == 2 else reg(r))
        return out

    def bounds(s):
        for e in s.I.ev:
            if e.k in ("R", "W"):
                r, c = e.ix
                root = e.root
                cond = rel(r, ">=", 0) & rel(r, "<", root.nr)
                if root.rank == 2:
                    cond = cond & rel(c, ">=", 0) & rel(c, "<", root.nc)
                s.test("C01", "element-bounds", e, e.ctx, cond, "%s of %s%s outside the array (%s x %s)" % ("read" if e.k == "R" else "write", root.name, "(%s,%s)" % (r, c) if root.rank == 2 else "[%s]" % r, root.nr, root.nc))
            elif e.k == "S":
                for d, cs in e.x[1]:
                    cond = TRUE
                    for q in cs:
                        cond = cond & q
                    s.test("C01", "subview-bounds", e, e.ctx, cond, "%s of %s: %s outside the parent" % (e.x[0], e.root.name, d))

    def conform(s):
        for e in s.I.ev:
            if e.k == "Q":
                why, cond, nm, chk = e.x
                s.test("C02" if chk else "C01", "call-requirement", e, e.ctx, cond, "call of %s breaks its requirement '%s'" % (nm, why))
            elif e.k == "throw":
                s.test("C02", "rejects-conforming", e, e.ctx, None, "argument check rejects a conforming call", preds=False)

    def regions(s):
        con = s.R.con
        roots = {r.id: r for r in s.R.c.roots.values()}
        for e in s.I.ev:
            if e.k not in ("R", "W") or e.root.id not in roots:
                continue
            root = e.root
            r, c = e.ix
            wr = con.wr.get(root.id, [])
            rd = con.rd.get(root.id, [])
            inb = rel(r, ">=", 0) & rel(r, "<", root.nr) & rel(c, ">=", 0) & rel(c, "<", root.nc)
            if any(reg is full for _, reg in wr) or (e.k == "R" and any(reg is full for _, reg in rd)):
                continue
            el = "(%s,%s)" % (r, c) if root.rank == 2 else "[%s]" % r
            if e.k == "W":
                ok = s.allowed(wr, root, r, c)
                if s.restores(e):
                    continue
                if not wr:
                    s.test("C09", "input-written", e, e.ctx & inb, ok, "writes %s%s, which is input only" % (root.name, el))
                else:
                    k = s.test("C09", "unmodified-part-written", e, e.ctx & inb, ok, "writes %s%s, outside the part documented as modified" % (root.name, el))
                    if not k and s.found and s.found[-1].pid == "C09" and root.id in con.regional:
                        f = s.found[-1]
                        s.found.append(Finding("C04", "unreferenced-written", e, f.msg, f.key.replace("unmodified-part-written", "unreferenced-written")))
            else:
                if root.id in con.regional:
                    ok = s.allowed(wr, root, r, c) | s.allowed(rd, root, r, c)
                    s.test("C04", "unreferenced-read", e, e.ctx & inb, ok, "reads %s%s, outside the referenced part" % (root.name, el))

    def restores(s, e):
        return False

    # ------------------------------------------------------------ initialisation
    def uninit(s, maxpairs=4000):
        con = s.R.con
        roots = {r.id: r for r in s.R.c.roots.values()}
        W = {}
        byparent = {}
        for e in s.I.ev:
            if e.k == "W":
                W.setdefault(e.root.id, []).append(e)
        fam = {}

        def top(r):
            while r.parent is not None:
                r = r.parent[0]
            return r
        for r in s.I.roots:
            fam.setdefault(top(r).id, []).append(r)
        pairs = 0
        for e in s.I.ev:
            if e.k != "R" or e.x == "dead" or e.used is False:
                continue
            root = e.root
            r, c = e.ix
            t = top(root)
            if root.id in roots:
                rd = con.rd.get(root.id, [])
                if any(reg is full for _, reg in rd):
                    continue
                X = e.ctx - s.allowed(rd, root, r, c)
                # only elements that the contract lets the routine write first
                wr = con.wr.get(root.id, [])
                if not any(reg is full for _, reg in wr):
                    X = X & s.allowed(wr, root, r, c)
            elif root.role in ("alloc", "work") and not getattr(root, "init", False) and not getattr(t, "init", False):
                X = e.ctx
                if t.id in roots and con.rd.get(t.id):
                    continue
            else:
                continue
            s.n["obligations"] += 1
            try:
                if X is FALSE or X.empty():
                    s.n["proved"] += 1
                    continue
                X = X & rel(r, ">=", 0) & rel(r, "<", root.nr) & rel(c, ">=", 0) & rel(c, "<", root.nc)
                # other arrays carved out of the same memory
                if len(fam.get(t.id, ())) > 1 and any(q.id != root.id and W.get(q.id) and s.overlap(q, root) for q in fam[t.id]):
                    s.n["unknown"] += 1
                    continue
                for w in W.get(root.id, ()):
                    pairs += 1
                    if pairs > maxpairs:
                        raise IslError()
                    cov = s.cover(w, e, X)
                    if cov is None:
                        continue
                    X = X - cov
                    if X.nbasic() > 20:
                        X = X.coalesce()
                    if X.empty():
                        break
                r_, w_ = definite(s.I, X)
            except IslError:
                r_ = "unknown"
            if r_ == "no":
                s.n["proved"] += 1
            elif r_ == "unknown" or not e.exact:
                s.n["unknown"] += 1
            else:
                what = "%s%s read before it is written" % (root.name, "(%s,%s)" % (r, c) if root.rank == 2 else "[%s]" % r)
                s.found.append(Finding("C20", "uninitialised-read", e, "%s: %s%s" % (s.inst, what, " when " + witness(s.I, w_) if w_ else ""), "%s/uninitialised-read/%s" % (s.R.f["n"], where(e).split(" ")[0].split("/")[-1].split(":")[0])))

    def overlap(s, a, b):
        """may two arrays carved out of one block share memory (a before b is cut off is disjoint)"""
        return True

    def cover(s, w, r, X):
        """valuations of r's symbols for which the write w happened before on the same element"""
        I = s.I
        mp = {}
        wc = w.ctx
        xs = set(I.plist(X))
        for l in r.ix:
            xs.update(l.syms())
        for n in I.plist(wc):
            sy = I.syms.get(n)
            if sy is None or sy.kind in ("iter", "head") or any(True for d in sy.deps):
                mp[n] = n + "q"
            elif sy.kind != "dim" and n not in xs:
                mp[n] = n + "q"
        for l in w.ix:
            for n in l.syms():
                sy = I.syms.get(n)
                if n not in mp and (sy is None or sy.kind in ("iter", "head") or sy.deps):
                    mp[n] = n + "q"
        wc = wc.rename(mp)
        sub = {a: Lin.sym(b) for a, b in mp.items()}
        x, y = w.ix[0].subst(sub), w.ix[1].subst(sub)
        cond = wc & rel(x, "==", r.ix[0])
        if w.root.rank == 2:
            cond = cond & rel(y, "==", r.ix[1])
        # order
        order = FALSE
        pre = TRUE
        for a, b in zip(w.time, r.time):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    break
                a2 = Lin.sym(a + "q")
                b2 = Lin.sym(b)
                order = order | (pre & rel(a2, "<", b2))
                pre = pre & rel(a2, "==", b2)
            else:
                if a < b:
                    order = order | pre
                    pre = None
                    break
                if a > b:
                    pre = None
                    break
        if order is FALSE:
            return None
        cond = cond & order
        if cond is FALSE:
            return None
        names = [n for n in cond.params() if n.endswith("q") and n[:-1] in I.syms]
        return cond.project(names)


class Result:
    pass


def analyse(P, f, sp, opts, props, seconds=30, neg=None, maxsplit=6, judge=None):
    """analyse one instance; cases that the sizes decide are analysed separately"""
    res = Result()
    res.runs = []
    res.found = []
    res.n = {"obligations": 0, "proved": 0, "unknown": 0}
    res.status = []
    res.t = 0
    work = [((), 0)]
    nsplit = 0
    t0 = time.time()
    while work:
        conds, hull = work.pop()
        left = seconds - (time.time() - t0)
        if left < 1:
            res.status.append("time")
            break
        try:
            R = prepare(P, f, sp, opts, neg, conds=conds, autosplit=nsplit < maxsplit, hull=hull)
        except NoContract as x:
            return None
        execute(R, left if hull else left / 3)
        if R.status == "split":
            nsplit += 1
            work += [(conds + (x,), hull) for x in R.sets]
            continue
        retry = R.status in ("isl", "time", "judge-time") and not hull
        if retry:
            work.append((conds, 4))
        J = Judge(R, props)
        if R.status == "vacuous":
            continue
        old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Limit()))
        signal.setitimer(signal.ITIMER_REAL, max(1.5, min(seconds, 2 * seconds - (time.time() - t0))), 2)
        try:
            if judge is not None:
                judge(J)
            else:
                if "C01" in props:
                    J.bounds()
                if "C02" in props or "C01" in props:
                    J.conform()
                if "C04" in props or "C09" in props:
                    J.regions()
                if "C20" in props:
                    J.uninit()
        except Limit:
            R.status = R.status if R.status != "ok" else "judge-time"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        res.found += J.found
        if retry:
            continue             # counted when it is analysed again
        res.status.append(R.status + (" @" + R.where if R.status != "ok" and hasattr(R, "where") else ""))
        for k, v in J.n.items():
            res.n[k] = res.n.get(k, 0) + v
        res.runs.append((R, J))
    res.t = time.time() - t0
    res.vacuous = not res.status
    bad = [x for x in res.status if x != "ok"]
    res.state = bad[0] if bad else "ok"
    return res
