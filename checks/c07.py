"""C07 queried workspace is always sufficient.

Every routine that comes with a workspace query, and every routine that
allocates workspace for another one, is analysed for all sizes (engine/).  The
query is evaluated on the symbolic arguments first; the workspace then holds
exactly as many elements as it answered.  From there on, two obligations:

  taken   - whatever is carved out of the workspace (`reshape`) fits in what is
            left of it;
  handed  - a workspace handed to another routine holds at least what *that*
            routine's query answers for the arguments it is called with.

When the second fails, the callee is expanded in place and only what it really
takes counts."""
import re, sys
from sweep import *
import sweep as SW
import runner as RN
from runner import *

LEVEL = "other"

RULE = "elements taken from (or needed of) the workspace <= elements the query answered, for all sizes"


# ------------------------------------------------------------ queries
def queries(P):
    q = getattr(P, "_queries", None)
    if q is None:
        q = P._queries = {}
        for g in P.fns:
            if g and g["n"].endswith("_worksize") and g.get("body") is not None and g.get("root"):
                q.setdefault(g["n"][:-len("_worksize")], []).append(g)
    return q


def stem(n):
    return n[:-len("_work")] if n.endswith("_work") else None


def tname(P, t):
    return P.base(t).get("s", "").replace("const ", "")


def kind(P, t):
    """what matters of a parameter type: which option tag, matrix, vector, ..."""
    ty = P.base(t)
    nm = str(ty.get("name") or "").split("::")[-1]
    if nm in ("vector", "span"):
        return "LegacyVector"
    if ty["k"] == "float" or nm == "complex":
        return "scalar"
    return nm or ty["k"]


def exact(P, tf, tg):
    return tname(P, tf) == tname(P, tg)


def alike(P, tf, tg):
    """same kind of argument; an option tag converts to the option"""
    a, b = kind(P, tf), kind(P, tg)
    if a == b:
        return True
    tf, tg = P.base(tf), P.base(tg)
    return tf["k"] == "rec" and tg["k"] == "enum" and a in OPV and tagletter(a) == SP.LET.get(b)


def tagletter(a):
    for rx, c in (("Transpose|Conjugate", "O"), ("Side$", "S"), ("Diagonal$", "D"), ("Norm$", "N"), ("ward$", "F"), ("wiseStorage$", "V")):
        if re.search(rx, a):
            return c
    return "U"


def spaces(P, f, ix, loose):
    rest = [i for i in range(len(f["params"])) if i not in ix]
    let = SP.letters(P, f)
    if not rest or any(let[i] not in "mv" for i in rest):
        if not loose:
            return None
        # arguments the query does not ask for; the workspace goes by its name
        rest = [i for i in rest if let[i] in "mv" and "work" in (f["params"][i]["n"] or "")]
    return rest or None


def match(P, f, g, same):
    """positions of f's parameters that the query g takes; the others are the
    workspaces.  None when they do not correspond"""
    ix = []
    i = 0
    for p in g["params"]:
        while i < len(f["params"]) and not same(P, f["params"][i]["t"], p["t"]):
            i += 1
        if i == len(f["params"]):
            return None
        ix.append(i)
        i += 1
    rest = spaces(P, f, ix, False)
    return (ix, rest) if rest else None


def named(P, f, g, same):
    """the same by name, when the types leave several possibilities"""
    pos = {p["n"]: i for i, p in enumerate(f["params"]) if p["n"]}
    ix = [pos.get(p["n"]) for p in g["params"]]
    if None in ix or ix != sorted(ix):
        return None
    if any(not same(P, f["params"][i]["t"], p["t"]) for i, p in zip(ix, g["params"])):
        return None
    rest = spaces(P, f, ix, True)
    return (ix, rest) if rest else None


def query(P, f):
    """(query instance, positions of its arguments, positions of workspaces)"""
    if "_query" in f:
        return f["_query"]
    r = None
    n = stem(f["n"])
    best = None
    for g in queries(P).get(n, ()) if n else ():
        k = named(P, f, g, exact) or match(P, f, g, exact)
        other = k is None
        if other:
            # an instance for other element types or layouts asks the same
            k = named(P, f, g, alike) or match(P, f, g, alike)
        if k is None or len(k[1]) != 1 and other:
            continue
        # the query is asked for the element type of the workspace
        w = P.base(f["params"][k[1][-1]]["t"])
        et = [a.get("s") or tname(P, a["t"]) for a in (w.get("args") or [])[:1] if isinstance(a, dict) and ("t" in a or "s" in a)]
        ta = [a.get("s") or tname(P, a["t"]) for a in (g.get("targs") or [])[:1] if isinstance(a, dict) and ("t" in a or "s" in a)]
        sc = (1 if et and ta and et[0] == ta[0] else 0) - (2 if other else 0)
        if best is None or sc > best:
            best, r = sc, (g, k[0], k[1])
    f["_query"] = r
    return r


def ask(I, f, g, ix, locs, st):
    """number of elements the query answers; evaluated in st"""
    tys = [p["t"] for p in f["params"]]
    lvs = []
    for i, p in zip(ix, g["params"]):
        l = locs[i]
        if I.P.base(p["t"])["k"] == "enum" and l[0] != "el":
            v = I.read(st, l)
            if not isinstance(v, Lin):
                o = optval(v)
                if o is None and isinstance(v, Rec):
                    o = OPV.get(str(v.ty).split("::")[-1])
                if o is None:
                    o = OPV.get(kind(I.P, tys[i]))
                if o is None:
                    return None
                l = I.newloc(st, L(o))
        lvs.append(l)
    w = I.invoke(g, lvs, st)
    if not isinstance(w, Rec):
        return None
    m, n = w.f.get("m"), w.f.get("n")
    if not isinstance(m, Lin) or not isinstance(n, Lin):
        return None
    return m, n


# ------------------------------------------------------------ analysis
class WEval(Eval):
    """sizes of queries stay simple: the two combinations of WorkInfo are the
    maximum and the sum of the numbers of elements (`algebra` shows it)"""
    lemma = False

    def invoke(s, f, lvs, st, this=None, cap=None):
        if s.lemma and this is not None and len(lvs) == 1 and f["n"] in ("minMax", "operator+=") and f.get("rec") is not None and iswi(s.P, f["rec"]):
            a, b = s.read(st, this), s.read(st, lvs[0])
            if isinstance(a, Rec) and isinstance(b, Rec) and all(isinstance(x.f.get(k), Lin) for x in (a, b) for k in "mn"):
                x, y = s.imul(st, a.f["m"], a.f["n"]), s.imul(st, b.f["m"], b.f["n"])
                n = s.imin(st, x, y, "max") if f["n"] == "minMax" else x + y
                s.write(st, this, a.set("m", n).set("n", L(1)))
                return None if f["n"] == "minMax" else s.read(st, this)
        return Eval.invoke(s, f, lvs, st, this, cap)


def iswi(P, rec):
    t = P.T(rec) if isinstance(rec, int) else {}
    return str(t.get("name")).split("::")[-1] == "WorkInfo"


def algebra(ck, P):
    """minMax and += of WorkInfo: number of elements after, for all operands"""
    import symview as V
    S = V.Poly.s
    n = exact = 0
    fs = [f for f in P.fns if f and f["n"] in ("minMax", "operator+=") and f.get("rec") is not None and f.get("body") is not None and iswi(P, f["rec"])]
    seen = set()
    for f in fs:
        if f["n"] in seen:
            continue
        seen.add(f["n"])
        for va in (0, 1):
            for vb in (0, 1):
                for ca in (0, 1):
                    for cb in (0, 1):
                        # a vector has one column
                        a = {"m": S("m"), "n": V.ONE if va else S("n"), "isContiguous": V.Poly.c(ca), "isVector": V.Poly.c(va)}
                        b = {"m": S("m1"), "n": V.ONE if vb else S("n1"), "isContiguous": V.Poly.c(cb), "isVector": V.Poly.c(vb)}
                        ev = V.SymEval(P, lambda g: g.get("body") is not None)

                        def args():
                            return [V.Obj(f["rec"], {k: V.Cell(v) for k, v in b.items()})]
                        thiss = []

                        def this2():
                            o = V.Obj(f["rec"], {k: V.Cell(v) for k, v in a.items()})
                            thiss.append(o)
                            return o
                        try:
                            ps = ev.paths(f, args, nonneg=("m", "n", "m1", "n1"), this=this2)
                        except V.Undec as x:
                            ck.cov.setdefault("algebra_undecided", []).append("%s: %s" % (f["n"], x))
                            exact = None
                            continue
                        for p, o in zip(ps, thiss):
                            n += 1
                            if p.out[0] != "ret":
                                ck.cov.setdefault("algebra_undecided", []).append("%s: %s" % (f["n"], p.out))
                                exact = None
                                continue
                            sa, sb = a["m"] * a["n"], b["m"] * b["n"]
                            m_, n_ = o["m"], o["n"]
                            if not isinstance(m_, V.Poly) or not isinstance(n_, V.Poly):
                                exact = None
                                continue
                            so = m_ * n_
                            mm = f["n"] == "minMax"
                            syms = [x for x in ("m", "n", "m1", "n1") if x in (sa + sb + so).syms() | p.facts.syms() or True]
                            rng = {x: range(0, 5) for x in syms}

                            def want(env):
                                x, y = sa.at(env), sb.at(env)
                                return max(x, y) if mm else x + y
                            free = so.syms() - set(syms)
                            if free:
                                # an opaque maximum: std::max of the two sizes
                                exact = None
                                continue
                            w = V.witness(p.facts, rng, lambda env: so.at(env) < want(env))
                            if w:
                                ck.violation("workinfo-algebra", "%s:%d (WorkInfo::%s)" % ("include/tlapack/" + P.file(f).split("/tlapack/")[-1], f["line"], f["n"]),
                                             "combining a query of %s x %s with one of %s x %s elements (vector %d/%d, contiguous %d/%d) answers %d elements, %d are needed" % (
                                                 w["m"], 1 if va else w["n"], w["m1"], 1 if vb else w["n1"], va, vb, ca, cb, so.at(w), want(w)), "workinfo-algebra/" + f["n"])
                                exact = None
                                continue
                            w = V.witness(p.facts, rng, lambda env: so.at(env) != want(env))
                            if w:
                                exact = None
                            v = o["isVector"]
                            if not (isinstance(v, V.Poly) and v.const() == 0) and not (n_ == V.ONE):
                                if V.witness(p.facts, rng, lambda env: n_.at(env) != 1 and (not isinstance(v, V.Poly) or v.syms() or v.const() != 0)):
                                    exact = None
    ck.cov["workinfo_algebra_cases"] = n
    return n > 0 and exact is not None and len(seen) == 2


class Setup:
    def __init__(s, I, f, c, st, flagged):
        s.I = I
        s.flagged = flagged
        I.callhook = s.hook
        s.quiet = 0
        q = query(I.P, f)
        I.given = set()
        if q is None:
            # nothing is known of a workspace that no query belongs to
            I.given = {r.id for r in c.roots.values()}
            if stem(f["n"]) in queries(I.P):
                raise Stop("no instance of the query")
            return
        g, ix, rest = q
        locs = [a[3] for a in c.args]
        s.quiet += 1
        I.curfile = I.P.file(f)
        I.curline = f["line"]
        I.retref = False
        try:
            k = ask(I, f, g, ix, locs, st)
        finally:
            s.quiet -= 1
        if k is None:
            raise Stop("query not evaluated")
        n, kind, v, l, cst, ty = c.args[rest[-1]]
        r = c.roots[n]
        if r.rank == 2:
            r.nr, r.nc = k
        else:
            r.nr, r.nc = I.imul(st, *k), L(1)
        v = View(r, v.rank, r.nr, r.nc, v.m, v.et)
        c.by[n] = v
        st.st[l[1]] = v
        r.role = "work"
        I.ev[:] = []

    def hook(s, ff, lvs, st, e):
        I = s.I
        q = query(I.P, ff) if not s.quiet else None
        if q is not None:
            g, ix, rest = q
            w = None
            try:
                w = I.read(st, lvs[rest[-1]])
            except Exception:
                pass
            if isinstance(w, View) and (ff["n"], I.curline) not in s.flagged:
                st2 = st.fork()
                n0 = len(I.ev)
                s.quiet += 1
                keep = (list(I.stack), I.curfile, I.curline, I.retref, I.saved)
                try:
                    k = ask(I, ff, g, ix, lvs, st2)
                    if k is not None and not I.dead(st2):
                        need = I.imul(st2, *k)
                        have = w.nr if w.rank == 1 else I.imul(st2, w.nr, w.nc)
                        del I.ev[n0:]
                        I.mkev("RQ", st2, root=w.root, view=w, x=(ff["n"], need, have, I.curline))
                except Stop:
                    pass
                finally:
                    del I.stack[:]
                    I.stack.extend(keep[0])
                    I.curfile, I.curline, I.retref, I.saved = keep[1:]
                    s.quiet -= 1
                    if len(I.ev) > n0 and I.ev[-1].k != "RQ":
                        del I.ev[n0:]
            if isinstance(w, View) and (ff["n"], I.curline) in s.flagged:
                return NotImplemented       # expand in place
        return SP.callhook(I, ff, lvs, st, e)


def strengthen(I, X):
    """facts about the products in X that affine sets do not know by themselves"""
    ms = []
    for n in X.params():
        sy = I.syms.get(n)
        if sy is not None and sy.kind == "opq" and isinstance(sy.x, tuple) and sy.x[0] == "mono" and len(sy.x) == 3:
            ms.append((n, sy.x[1], sy.x[2]))
    L_ = Lin.sym
    for n, p, q in ms:
        for a, b in ((p, q), (q, p)):
            c = None
            for k in range(4):
                z = rel(L_(a), "==", k) & rel(L_(n), "==", L_(b).scale(k))
                c = z if c is None else c | z
            c = c | (rel(L_(a), ">=", 4) & rel(L_(b), ">=", 0) & rel(L_(n), ">=", L_(b).scale(4))) | rel(L_(a), "<", 0) | rel(L_(b), "<", 0)
            X = X & c
        if X.empty():
            return X
    for i, (n, p, q) in enumerate(ms):
        for m, r, t in ms[i + 1:]:
            for (a, b), (c, d) in ({((p, q), (r, t)), ((p, q), (t, r))} if p != q and r != t else {((p, q), (r, t))}):
                neg = rel(L_(p), "<", 0) | rel(L_(q), "<", 0) | rel(L_(r), "<", 0) | rel(L_(t), "<", 0)
                f = rel(L_(a), "<=", L_(c)) & rel(L_(b), "<=", L_(d))
                g = rel(L_(c), "<=", L_(a)) & rel(L_(d), "<=", L_(b))
                X = X & (neg | ~f | rel(L_(n), "<=", L_(m)))
                X = X & (neg | ~g | rel(L_(m), "<=", L_(n)))
                X = X.coalesce()
                if X.empty():
                    return X
    return X


def monos(I, X):
    return [(n, I.syms[n].x) for n in X.params() if I.syms.get(n) is not None and I.syms[n].kind == "opq"]


def consistent(I, w):
    for n, v in w.items():
        sy = I.syms.get(n)
        if sy is None or sy.kind != "opq":
            continue
        if not isinstance(sy.x, tuple) or sy.x[0] != "mono":
            return False
        p = 1
        for q in sy.x[1:]:
            if q not in w:
                return False
            p *= w[q]
        if p != v:
            return False
    return True


def resolve(I, X, seconds=3.0, lim=8):
    """an integer point of X with every product equal to the product of its
    factors; None when there is none up to sizes of lim, "unknown" when the
    search was not completed"""
    if X is FALSE or X.empty():
        return None
    t_end = time.time() + seconds
    for n, x in monos(I, X):
        if not isinstance(x, tuple) or x[0] != "mono":
            return "unknown"
    # a factor below four makes the product affine
    Y = X
    for n, x in monos(I, X):
        c = None
        for q in x[1:]:
            if q in X.params():
                z = rel(Lin.sym(q), "<=", 3)
                c = z if c is None else c | z
        Z = Y & c if c is not None else Y
        if not Z.empty():
            Y = Z
        if time.time() > t_end:
            return "unknown"
    w = Y.sample()
    if w and consistent(I, w):
        return w
    dims = [n for n in X.params() if I.syms.get(n) is not None and I.syms[n].kind == "dim"]
    fac = sorted({q for n, x in monos(I, X) for q in x[1:] if q in X.params() and (I.syms.get(q) is None or I.syms[q].kind not in ("dim", "opq"))})

    def go(Y, ds):
        if time.time() > t_end:
            return "unknown"
        if not ds:
            w = Y.sample()
            return w if w and consistent(I, w) else None
        for t in range(0, lim + 1):
            Z = Y & parse([ds[0]], "%s = %d" % (ds[0], t))
            for n, x in monos(I, Z) if not Z.empty() else ():
                if ds[0] in x[1:]:
                    o = list(x[1:])
                    o.remove(ds[0])
                    if len(o) == 1:
                        Z = Z & rel(Lin.sym(n), "==", Lin.sym(o[0]).scale(t))
            if Z.empty():
                continue
            r = go(Z, ds[1:])
            if r is not None:
                return r
        return None
    return go(X, dims + fac)


def test(J, rule, e, need, have, what, key):
    J.n["obligations"] += 1
    I = J.I
    try:
        X = e.ctx - rel(need, "<=", have)
        if X is FALSE or X.empty():
            J.n["proved"] += 1
            return True
        X = strengthen(I, X)
        if X.empty():
            J.n["proved"] += 1
            return True
        bad = [n for n in X.params() if (I.syms.get(n).kind if I.syms.get(n) else "tmp") in HAVOC]
        if bad:
            bad += [n for n, x in monos(I, X) if isinstance(x, tuple) and set(x[1:]) & set(bad)]
            Y = X.project(bad)
            if not Y.subset(X):
                J.n["unknown"] += 1
                return True
            X = Y
        for n in X.params():
            if I.syms.get(n) is not None and I.syms[n].kind == "dim":
                X = X & parse([n], "%s <= 1000" % n)
        w = resolve(I, X)
        if w is None:
            J.n["searched"] = J.n.get("searched", 0) + 1
            return True
        if isinstance(w, str) or not e.exact:
            J.n["unknown"] += 1
            return True
    except IslError:
        J.n["unknown"] += 1
        return True

    def val(l):
        try:
            return sum(c * w[q] for q, c in l.t) + l.c
        except KeyError:
            return None
    a, b = val(need), val(have)
    hide = {n for n, r in J.R.c.roots.items() if r.role == "work"}
    wt = witness(I, {k: v for k, v in w.items() if k.rsplit("_", 1)[0] not in hide})
    J.found.append(Finding("C07", rule, e, "%s: %s%s%s" % (J.inst, what, (", needs %s of %s elements" % (a, b)) if a is not None and b is not None else "", (" when " + wt) if wt else ""), key))
    return False


def judge(J):
    for e in J.I.ev:
        if e.k == "RS":
            n, need, have = e.x
            t = e.root
            while t.parent is not None:
                t = t.parent[0]
            if t.role not in ("work", "alloc") or t.id in J.I.given:
                continue
            test(J, "taken", e, need, have, "takes more from the workspace %s than its query asked for" % t.name, "%s/taken/%s" % (J.R.f["n"], e.fn["n"] if e.fn else "?"))
        elif e.k == "RQ":
            nm, need, have, line = e.x
            t = e.root
            while t.parent is not None:
                t = t.parent[0]
            if t.id in J.I.given:
                continue
            if not test(J, "handed", e, need, have, "hands %s less workspace than %s_worksize answers for that call" % (nm, stem(nm)), "%s/handed/%s" % (J.R.f["n"], nm)):
                J.found[-1].flag = (nm, line)


def analyse(P, f, sp, opts, seconds):
    run0 = RN.run
    RN.Eval = WEval
    flagged = set()
    out = None

    def run1(I, f, c, st):
        Setup(I, f, c, st, flagged)
        return run0(I, f, c, st)
    try:
        RN.run = run1
        for rnd in range(8):
            r = RN.analyse(P, f, sp, opts, {"C07"}, seconds, judge=judge)
            if r is None:
                return out
            new = {x.flag for x in r.found if getattr(x, "flag", None)}
            if out is None:
                out = r
            else:
                # what the expansion shows replaces what the queries said
                out.found = r.found
                out.state = r.state if out.state == "ok" else out.state
            if not new - flagged:
                break
            flagged |= new
        out.found = [x for x in out.found if not getattr(x, "flag", None)]
        return out
    finally:
        RN.run = run0


def one(a):
    k, props, sec, t_end = a
    ii, d = SW.G["todo"][k]
    pi, f, sp = SW.G["insts"][ii]
    P = SW.G["progs"][pi][1]
    o = {"k": k, "n": {}, "found": [], "state": "ok", "runs": 0, "t": 0, "ev": 0}
    if time.time() > t_end:
        o["state"] = "skipped"
        return o
    try:
        r = analyse(P, f, sp, d, sec)
        if r is None:
            o["state"] = "nocontract"
            return o
        o.update(n=r.n, state=r.state, runs=len(r.runs), t=r.t)
        o["ev"] = sum(1 for R, _ in r.runs for e in R.I.ev if e.k in ("RS", "RQ"))
        o["found"] = [(x.pid, x.rule, x.where, x.msg, x.key) for x in r.found]
    except Limit:
        o["state"] = "time"
    except Stop as x:
        o["state"] = "stop: %s" % x
    except Exception:
        o["state"] = "exc " + traceback.format_exc()[-600:]
    return o


def concerned(P):
    """routines whose body asks a query, takes workspace or hands it on"""
    hit = {}

    def refs(x, acc):
        if isinstance(x, dict):
            if isinstance(x.get("f"), int) and x.get("k") == "call":
                acc.add(x["f"])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    refs(v, acc)
        elif isinstance(x, list):
            for v in x:
                refs(v, acc)
    out = set()
    for f in P.fns:
        if not f or f.get("body") is None or not f.get("root"):
            continue
        acc = set()
        refs(f["body"], acc)
        if f["n"].endswith("_work") or any(P.fns[i]["n"].endswith(("_worksize", "_work")) for i in acc if P.fns[i]):
            out.add(f["n"])
    return out


def run(ck):
    thorough = TIER == "thorough"
    load(ck, [D, Z] + ([DR, ZR] if thorough else []))
    G_ = SW.G
    WEval.lemma = algebra(ck, G_["progs"][0][1])
    ck.cov["workinfo_algebra"] = "maximum and sum of the sizes" if WEval.lemma else "not established; WorkInfo is expanded in place"
    names = set()
    for _, P in G_["progs"]:
        names |= {n for n in concerned(P) if not n.endswith("_worksize")}
    G_["todo"] = [(ii, d) for ii, d in G_["todo"] if G_["insts"][ii][1]["n"] in names]
    res = sweep(ck, {"C07"}, 120 if thorough else 12, budget=5400 if thorough else 600, expect=60, fn=one)
    ck.cov["searched_without_witness"] = sum(r["n"].get("searched", 0) for r in res)
    pairs = {f["n"] for pi, f, sp in G_["insts"] if query(G_["progs"][pi][1], f)}
    ck.cov["routines_with_query"] = sorted(pairs)
    ck.cov["rule"] = RULE
    ck.assume += [
        "the workspace is contiguous, of the size the query answers (what every allocating routine of the library creates)",
        "sizes are mathematical integers; the block size is instantiated (quick 3, thorough 1, 2, 3)",
        "a violation is reported only with an integer witness; products of sizes that could not be compared symbolically are searched up to sizes of 9",
    ]
    ck.floor("routines with a query", len(pairs), 40)
    ck.floor("workspace obligations", ck.cov["obligations"], 200)
