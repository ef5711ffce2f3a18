"""The diagonal of Hermitian operands: results real, imaginary parts of the input ignored"""
from formula import *
import dom as DOM

# routine -> (positions of Hermitian inputs, position of the Hermitian result) among the matrix arguments
HERM = {"hemm": ([0], None), "hemv": ([0], None), "hemm2": ([0], None), "mult_hehe": ([0, 1], None),
        "her": ([0], 0), "her2": ([0], 0), "herk": ([1], 1), "her2k": ([2], 2)}
NORMS = ("lanhe", "infnorm_hermitian_colmajor", "infnorm_hermitian_colmajor_work")


def start(P, f, sp, opts, hook, seconds, fuel=150000):
    R = prepare(P, f, sp, opts, fuel=fuel)
    for n, sy in R.I.syms.items():
        if sy.kind == "dim":
            R.st.ctx = R.st.ctx & rel(n, "<=", 1000000000)
    R.ctx0 = R.st.ctx
    R.I.maxphi = 400
    R.I.callhook = hook(R)
    execute(R, seconds)
    return R


def check(P, f, sp, opts, seconds, pid="C06"):
    res = {"state": "ok", "terms": 0, "found": [], "arrays": 0, "equal": 0}
    if f["n"] in NORMS:
        return norm(P, f, sp, opts, seconds, pid, res)
    fm = find_formula(f)
    kw = fm[1] if fm else {}
    R = start(P, f, sp, opts, lambda R: lambda ff, lvs, st, e: formula_call(R.I, f, kw, ff, lvs, st, e), seconds)
    if R.status != "ok":
        res["state"] = R.status
        return res
    try:
        judge(R, f, res, pid)
    except Unknown as x:
        res["state"] = "unknown: %s" % x
    except IslError:
        res["state"] = "isl"
    return res


def flip(K, ids):
    """conjugated diagonal elements of the roots ids"""
    out = list(K)
    i = 0
    while i < len(out):
        k = out[i]
        for n, x in enumerate(k.f):
            if isinstance(x, El) and x.root.id in ids and x.lab != "new" and x.op is None:
                dg = k.dom & rel(x.r, "==", x.c)
                rest = k.dom - dg if dg is not FALSE else k.dom
                y = x.copy()
                y.op = "seen"
                f = list(k.f)
                f[n] = y
                l = []
                if rest is not FALSE and not rest.empty():
                    l.append(Con_(k.co, tuple(f), rest, k.r, k.c, k.time, k.ev))
                if dg is not FALSE and not dg.empty():
                    f = list(f)
                    f[n] = y.copy(conj=not y.conj)
                    l.append(Con_(k.co, tuple(f), dg, k.r, k.c, k.time, k.ev))
                out[i:i + 1] = l
                i -= 1
                break
        i += 1
    return out


def judge(R, f, res, pid):
    poly = Poly(R)
    cons = poly.run()
    roots = {r.id: r for r in R.c.roots.values()}
    mats = [a.root for a, c in zip(R.args, f["_letters"]) if c == "m" and isinstance(a, View)]
    ins, outp = HERM[f["n"]]
    dims = [n for n, sy in R.I.syms.items() if sy.kind in ("dim", "opq")]
    ids = {mats[k].id for k in ins}
    for rid, K in cons.items():
        root = roots.get(rid)
        if root is None or root.role == "work":
            continue
        written = FALSE
        p, q = Lin.sym("p_"), Lin.sym("q_")
        for e in poly.W.get(rid, ()):
            mp = poly.evmap(e)
            z = ren_set(e.ctx, mp) & poly.same(e, mp, p, q)
            written = written | z.project(list(mp.values()))
        K = [Con_(k.co, k.f, k.dom & written, k.r, k.c, k.time, k.ev) for k in K]
        K = [k for k in K if k.dom is not FALSE and not k.dom.empty()]
        if outp is not None and rid == mats[outp].id:
            D = [Con_(k.co, k.f, k.dom & rel(p, "==", q), k.r, k.c, k.time, k.ev) for k in K]
            D = [k for k in D if k.dom is not FALSE and not k.dom.empty()]
            C = [Con_(cconj(k.co), tuple(fconj_(x) for x in k.f), k.dom, k.r, k.c, k.time, k.ev) for k in D]
            equal(R, poly, D, C, dims, root, res, pid, rule="diagonal-not-real", text="(on the diagonal of a Hermitian result) has an imaginary part:")
        equal(R, poly, K, flip(K, ids), dims, root, res, pid, rule="imaginary-part-used", text="depends on the imaginary part of a diagonal element of a Hermitian operand:")


def norm(P, f, sp, opts, seconds, pid, res):
    DOM.USES.clear()
    DOM.F.watch = True
    try:
        # everything inlined, so that what happens to each element is seen
        R = start(P, f, sp, opts, lambda R: lambda ff, lvs, st, e: NotImplemented, seconds)
    finally:
        DOM.F.watch = False
    if R.status != "ok":
        res["state"] = R.status
        return res
    ids = {a.root.id for a, c in zip(R.args, f["_letters"]) if c == "m" and isinstance(a, View)} & {r.id for r in R.c.roots.values() if r.role != "work"}
    last = {id(e) for e in R.I.ev}
    for k, e in DOM.USES:
        if id(e) not in last or e.root.id not in ids or e.root.rank != 2:
            continue
        res["arrays"] += 1
        res["terms"] += 1
        X = e.ctx & rel(e.ix[0], "==", e.ix[1])
        try:
            r, w = definite(R.I, X)
        except IslError:
            r = "unknown"
        if r == "no":
            res["equal"] += 1
        elif r == "yes" and e.exact:
            res["found"].append(Finding(pid, "imaginary-part-used", e, "%s[%s]: a diagonal element of a Hermitian matrix is used through '%s' and not only through its real part%s" % (f["n"], optname(f, opts), k, " when " + witness(R.I, w) if w else ""), "%s/imaginary-part-used" % f["n"]))
        else:
            res["state"] = "unknown: diagonal"
    return res
