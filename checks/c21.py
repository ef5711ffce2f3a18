"""C21 copy, set, scale, transpose: element formulas of the documented region, and
coverage of the region by the scaling routines"""
from formulas import *
from runner import *

LEVEL = "other"
NAMES = "lacpy laset transpose conjtranspose conjugate copy swap scal"
SCALE = "lascl rscl scal conjugate"


def coverage(J):
    """every element of the documented region is written, from its own old value"""
    R, I = J.R, J.I
    roots = {r.id: r for r in R.c.roots.values()}
    # an early return or a rejected call scales nothing
    base = FALSE
    for st, v in R.outs:
        base = base | st.ctx
    p, q = Lin.sym("p_"), Lin.sym("q_")
    for rid, wr in R.con.wr.items():
        root = roots.get(rid)
        if root is None or not wr:
            continue
        X = R.ctx0 & J.allowed(wr, root, p, q) & rel(p, ">=", 0) & rel(p, "<", root.nr) & rel(q, ">=", 0) & rel(q, "<", root.nc)
        n = 0
        last = None
        for e in I.ev:
            if e.k != "W" or e.root.id != rid:
                continue
            n += 1
            last = e
            Y = e.ctx & rel(e.ix[0], "==", p)
            if root.rank == 2:
                Y = Y & rel(e.ix[1], "==", q)
            dims = {n_ for n_, sy in I.syms.items() if sy.kind == "dim"} | {"p_", "q_"}
            Y = Y.project([z for z in Y.params() if z not in dims])
            X = X - Y
        X = X.project([z for z in ("p_", "q_") if X is not TRUE and X is not FALSE and z in X.params()])
        J.test("C21", "element-not-scaled", last if last is not None else where_fn(R), X, None, "an element of the documented region of %s is left unscaled" % root.name)


def where_fn(R):
    return "%s:%d (%s)" % ("include/tlapack/" + R.I.P.file(R.f).split("/tlapack/", 1)[1], R.f["line"], R.f["n"])


def run(ck):
    run_formulas(ck, NAMES, 7, 16)
    cov = dict(ck.cov)
    G["judge"] = coverage
    load(ck, [D, Z] + ([DR, ZR] if TIER == "thorough" else []), names=set(SCALE.split()))
    sweep(ck, {"C21"}, 20, expect=3)
    ck.cov = {"formulas": cov, **ck.cov}
    for k in ("routines", "obligations", "proved", "undecided", "option_cases"):
        ck.cov[k] = ck.cov.get(k, 0) + cov.get(k, 0)
