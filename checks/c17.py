"""C17 termination: every loop reaches an end for every entry state, recursive
calls change the problem, iterative routines have an iteration limit"""
from sweep import *
from runner import *
import limits
import interp

LEVEL = "other"
# iterative routines: every loop in them is bounded by something other than data
ITER = {"lahqr", "lahqz", "multishift_qr", "multishift_qr_work", "multishift_qz", "steqr", "svd_qr", "laed6", "generalized_schur_swap"}
# documented: scaling in steps, as many as the ratio of the two factors needs
DATA = {"lascl", "rscl"}
FAR = 10 ** 14
BIG = 10 ** 9


def key(R, e, rule):
    return "%s/%s/%s" % (e.fn["n"] if e.fn else "?", rule, where(e).split(" ")[0].split("/")[-1].split(":")[0])


def compares(x):
    """does the condition compare values (rather than read a flag)"""
    if isinstance(x, dict):
        if x.get("op") in ("<", ">", "<=", ">=", "==", "!="):
            return True
        return any(compares(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(compares(v) for v in x)
    return False


def extents(R, X, args, let):
    """valuations of X for which a call has the extents and integers of the routine itself"""
    for own, a, c in zip(R.args, args, let):
        if c == "m":
            if not isinstance(a, View) or not isinstance(own, View):
                return None
            X = X & rel(a.nr, "==", own.nr) & rel(a.nc, "==", own.nc)
        elif c == "v":
            if not isinstance(a, View) or not isinstance(own, View):
                return None
            X = X & rel(a.nr, "==", own.nr)
        elif c == "i":
            if not isinstance(a, Lin) or not isinstance(own, Lin):
                return None
            X = X & rel(a, "==", own)
        elif c in "OUSDFVN":
            if a != own:
                return None
        elif c == "b" and not (isinstance(a, B) and a == own):
            return None
        if X is FALSE:
            return X
    return X


def judge(J):
    R, I = J.R, J.I
    for e in I.ev:
        if e.k == "loop":
            line, t, D, start, ex, H2, cont, cnd = e.x[:8]
            at = SimpleNamespace(loc=(e.loc[0], line), fn=e.fn, exact=e.exact, k=e.k)
            if ex is not None:
                S = H2 & rel(Lin.sym(t), "==", 0)
                S = S if S is TRUE or S is FALSE else S.project([t])
                E = ex & rel(Lin.sym(t), ">=", 0)
                E = E if E is TRUE or E is FALSE else E.project([t])
                J.test("C17", "endless-loop", at, S, E, "the loop never ends")
            if R.f["n"] in ITER or R.f["n"] not in DATA and compares(cnd):
                X = D & cont & rel(Lin.sym(t), ">=", FAR)
                if X is not TRUE and X is not FALSE:
                    X = X.project([t])
                    if R.f["n"] in ITER:
                        # the bound must come from the sizes: whatever else decides (over-approximated or not) counts as data
                        for n in X.params():
                            X = X & rel(Lin.sym(n), "<=", BIG) & rel(Lin.sym(n), ">=", -BIG)
                        X = X.project([n for n in X.params() if I.syms.get(n) is None or I.syms[n].kind != "dim"])
                J.test("C17", "no-iteration-limit", at, X, None, "nothing but the data bounds the number of iterations")
        elif e.k == "infinite":
            J.test("C17", "endless-loop", e, e.ctx, None, "the loop has no end")
        elif e.k == "C":
            nm, args, let, ff = e.x
            if nm != R.f["n"] or let != R.f["_letters"] or ff["line"] != R.f["line"] or I.P.file(ff) != I.P.file(R.f):
                continue
            X = extents(R, e.ctx, args, let)
            if X is None:
                J.n["obligations"] += 1
                J.n["proved"] += 1
                continue
            for n in {q for n in I.infos for q in n[0].syms()} & set(X.params() if X is not TRUE else ()):
                # some data makes the calls before this one succeed
                X = (X & rel(Lin.sym(n), "==", 0)).project([n])
            J.test("C17", "recursion-without-progress", e, X, None, "calls itself with arguments of the same size", preds=False)


class SimpleNamespace:
    def __init__(s, **kw):
        s.__dict__.update(kw)


# main loop: the largest one; NEWTON: every while loop
MAIN = ("lahqr", "lahqz", "multishift_qr", "multishift_qr_work", "multishift_qz", "steqr", "svd_qr")
NEWTON = ("larfg", "laed4", "laed6", "generalized_schur_swap")


def structure(ck):
    """iterative routines are too long for the path analysis: there, decide
    from the loop's own variables"""
    seen = set()
    for tag, P in G["progs"]:
        I = interp.Interp.__new__(interp.Interp)
        I.P = P
        for f in P.fns.values() if isinstance(P.fns, dict) else P.fns:
            if not f or not f.get("body") or f["n"] not in MAIN + NEWTON or "tlapack/" not in P.file(f):
                continue
            ls = list(limits.outer(f["body"]))
            if f["n"] in MAIN:
                ls = sorted(ls, key=limits.size)[-1:]
            else:
                ls = [x for x in limits.walk(f["body"]) if x.get("k") == "while"]
            for L in ls:
                fl = "include/tlapack/" + P.file(f).split("tlapack/")[-1]
                if (fl, L["l"], tag) in seen:
                    continue
                seen.add((fl, L["l"], tag))
                ck.cov["main_loops"] = ck.cov.get("main_loops", 0) + 1
                if not limits.bounded(I.assigned, L):
                    ck.violation("no-iteration-limit", "%s:%d (%s)" % (fl, L["l"], f["n"]), "no counter with a fixed limit bounds the iterations of %s" % f["n"], "%s/limit" % f["n"])


def run(ck):
    thorough = TIER == "thorough"
    G["judge"] = judge
    load(ck, [D, Z] + ([DR, ZR] if thorough else []))
    if not thorough:
        # too long for the path analysis in this tier: structure() only
        G["todo"] = [t for t in G["todo"] if G["insts"][t[0]][1]["n"] not in MAIN[:5]]
    sweep(ck, {"C17"}, 120 if thorough else 5, budget=5400 if thorough else 700, expect=200)
    structure(ck)
    ck.assume += [
        "contracts of the routines as transcribed in engine/spec_blas.py and engine/spec_lapack.py; callees return",
        "only loops that provably never end (from some integer witness, no over-approximated quantity involved) are reported; bounds by data alone are accepted outside the iterative routines",
    ]
