"""C10 info values: what a routine returns after a nested call failed or a
pivot was rejected"""
from sweep import *
from runner import *
import limits, pivots

LEVEL = "other"
# every position of the (square or min(m,n)) problem can fail and is reported by its one-based index
INDEX = ("potf2", "potrf", "potrf2", "potrf_blocked", "potrf_rl", "getrf", "getrf_level0", "getrf_recursive", "getri_uxli", "getri_uxli_work", "getri_uili", "getri", "getri_work",
         "trtri_recursive", "pttrf", "hetf3", "hetrf", "hetrf_work", "hetrf_blocked", "hetrf_blocked_work", "pbtrf_with_workspace", "potri")
REPORTS = INDEX + ("lahqr", "lahqz", "multishift_qr", "multishift_qr_work", "multishift_qz", "qr_iteration", "qr_iteration_work", "steqr", "svd_qr", "gesvd", "tik_svd", "tkhnv",
                   "schur_swap", "schur_move", "generalized_schur_swap", "generalized_schur_move", "laed4", "laed6")
# failures of the nested call are not failures of the routine: documented to go on with what has converged
TOLERATE = ("aggressive_early_deflation", "aggressive_early_deflation_work", "aggressive_early_deflation_generalized")


# too long for the path analysis in the quick tier
LONG = ("lahqr", "lahqz", "multishift_qr", "multishift_qr_work", "multishift_qz", "generalized_schur_swap", "svd_qr", "steqr")


def offset(ev):
    nm, args, let, ff = ev.x
    for a, c in zip(args, let):
        if isinstance(a, View) and c in "mv":
            if a.rank == 1 and a.root.rank == 2:
                return None
            return a.m[0]
    return None


def judge(J):
    R, I = J.R, J.I
    nm = R.f["n"]
    if nm in TOLERATE:
        return
    infos = {}
    for q in I.infos:
        (n,) = q[0].syms()
        infos[n] = q

    def relevant(X):
        return sorted((n for n in X.params() if n in infos), key=lambda n: infos[n][5].no) if X is not TRUE and X is not FALSE else []
    hi = getattr(R.con, "infohi", None)
    for e in I.ev:
        if e.k == "loop":
            cont = e.x[6]
            kept = passed_on(J, e)
            for n in relevant(cont):
                c = infos[n][5]
                if n in kept:
                    continue
                J.test("C10", "failure-ignored", c, cont & rel(Lin.sym(n), ">=", 1), None, "the loop goes on after %s failed" % c.x[0])
        if e.k != "RET":
            continue
        v = e.x
        if not isinstance(v, Lin):
            continue
        X = e.ctx
        ns = relevant(X)
        for n in ns:
            q = infos[n]
            s = Lin.sym(n)
            Y = X & rel(s, ">=", 1)
            J.test("C10", "failure-lost", e, Y & rel(v, "==", 0), None, "returns 0 although %s failed" % q[5].x[0])
            off = offset(q[5])
            if off is not None and nm not in NOINDEX:
                J.test("C10", "index-of-nested-failure", e, Y & rel(v, "!=", 0), rel(v, "==", s + off), "returns %s when %s reports %s for the part that starts at %s" % (v, q[5].x[0], "info", off))
            X = X & rel(s, "==", 0)
        # no nested failure
        Y = X & rel(v, "!=", 0)
        if hi is not None:
            J.test("C10", "info-range", e, Y, rel(v, ">=", 1) & rel(v, "<=", hi), "returns %s, no position of the matrix" % v)
        if nm in INDEX:
            last = None
            for r in I.ev[:e.no]:
                if r.k == "R" and any(r.root is q for q in R.c.roots.values()) and not (r.ctx & Y).empty():
                    if r.root.rank == 1 or nm not in DIAGONAL or (r.ctx & Y - rel(r.ix[0], "==", r.ix[1])).empty():
                        last = r
            if last is not None:
                col = last.ix[1] if last.root.rank == 2 else last.ix[0]
                J.test("C10", "index-of-failure", e, Y & last.ctx, rel(v, "==", col + 1), "returns %s after rejecting the pivot in column %s" % (v, col))
    if nm in INDEX and hi is not None:
        W = [q for nm_, q in R.c.roots.items() if nm_ == "work"]
        if R.status == "ok" and not W and nm not in PANEL:
            reported(J, R)
        if nm not in PANEL and not getattr(R, "small", None):
            # the smallest problems, where nothing is joined over iterations
            A = next((q for q in R.c.roots.values()), None)
            for n in (1, 2, 3):
                R2 = prepare(I.P, R.f, R.con.sp, R.opts, conds=[rel(A.nr, "==", n)] + [rel(x, "==", 4) for w in W for x in (w.nr, w.nc)])
                R2.small = True
                execute(R2, 5)
                if R2.status == "ok":
                    reported(J, R2)


def passed_on(J, e):
    """loops that go on after a failure and keep the first info in a variable:
    the number must be moved to the caller's indexing"""
    R, I = J.R, J.I
    st = e.x[8]
    out = set()
    if st is None or st.ctx is FALSE or st.ctx is TRUE:
        return out
    rets = {pivots.strip(x["e"])["d"] for x in limits.walk(R.f["body"]) if x.get("k") == "ret" and x.get("e") and pivots.strip(x["e"]).get("k") == "ref"}
    for d in rets:
        lv = st.fr.get(d)
        v = I.read(st, lv) if lv is not None else None
        hv = e.x[9].fr.get(d)
        old = I.read(e.x[9], hv) if hv is not None else None
        if not isinstance(v, Lin) or not isinstance(old, Lin):
            continue
        for q in I.infos:
            (n,) = q[0].syms()
            if n not in st.ctx.params():
                continue
            s = q[0]
            X = st.ctx & rel(s, ">=", 1) & rel(old, "==", 0)
            # the variable can take this info
            same = X & rel(v, "==", s)
            off = offset(q[5])
            if off is None:
                continue
            moved = X & rel(v, "==", s + off)
            if same.empty() and moved.empty():
                continue
            out.add(n)
            at = q[5]
            J.n["obligations"] += 1
            if not (off.const and off.c == 0) and not (X & rel(off, ">=", 1)).empty() and (X & rel(v, ">=", 1) & rel(off, ">=", 1) & rel(v, "==", s + off)).empty():
                J.found.append(Finding("C10", "index-of-nested-failure", at, "%s: keeps info of %s for the part that starts at %s without moving it" % (J.inst, at.x[0], off), "%s/kept" % R.f["n"]))
            elif (X & rel(v, ">=", 1)).empty():
                J.found.append(Finding("C10", "failure-lost", at, "%s: forgets that %s failed" % (J.inst, at.x[0]), "%s/kept" % R.f["n"]))
            else:
                # a failure noted earlier stays
                Z = st.ctx & rel(old, ">=", 1)
                if not Z.empty() and (Z & rel(v, "==", old)).empty():
                    J.found.append(Finding("C10", "failure-lost", at, "%s: forgets an earlier failure" % J.inst, "%s/kept" % R.f["n"]))
                else:
                    J.n["proved"] += 1
    return out


def reported(J, R):
    """every position can be reported"""
    k = Lin.sym(R.I.fresh("kfail", "data"))
    (kn,) = k.syms()
    U = FALSE
    base = R.ctx0.params() if R.ctx0 is not TRUE else []
    for e in R.I.ev:
        if e.k == "RET" and isinstance(e.x, Lin):
            X = e.ctx & rel(e.x, "==", k)
            U = U | X.project([n for n in X.params() if n not in base and n != kn])
        elif e.k == "RET":
            return
    K = R.ctx0 & rel(k, ">=", 1) & rel(k, "<=", R.con.infohi)
    at = Ev()
    at.loc = (R.I.P.file(R.f), R.f["line"])
    at.fn, at.exact, at.k = R.f, True, "RET"
    J2 = Judge(R, J.props)
    J2.n, J2.found = J.n, J.found
    J2.test("C10", "failure-never-reported", at, K, U, "never returns k for a failure in position k")


# factorizes some columns only
PANEL = ("hetf3",)
# the rejected pivot is a diagonal element (the LU routines look down the column)
DIAGONAL = ("potf2", "potrf", "potrf2", "potrf_blocked", "potrf_rl", "getri_uxli", "getri_uxli_work", "trtri_recursive", "hetf3")
NOINDEX = ("schur_swap", "schur_move", "generalized_schur_swap", "generalized_schur_move")


def quiet(x):
    return x[0] + ", error handler off", dict(x[1], extra=("-DTLAPACK_NDEBUG",))


def run(ck):
    thorough = TIER == "thorough"
    G["judge"] = judge
    # with the error handler compiled out, every failure is a return value
    load(ck, [quiet(x) for x in [D, Z] + ([DR, ZR] if thorough else [])])
    pivots.discarded(ck, G["progs"], REPORTS)

    def concerned(k):
        pi, f, sp = G["insts"][k]
        if not thorough and f["n"] in LONG:
            return False
        P = G["progs"][pi][1]
        return f["n"] in REPORTS or any(x.get("k") == "call" and isinstance(x.get("f"), int) and P.fns[x["f"]] and P.fns[x["f"]]["n"] in REPORTS for x in limits.walk(f["body"]))
    G["todo"] = [t for t in G["todo"] if concerned(t[0]) and G["progs"][G["insts"][t[0]][0]][1].base(G["insts"][t[0]][1]["ret"]).get("s") == "int"]
    sweep(ck, {"C10"}, 120 if thorough else 5, budget=5400 if thorough else 700, expect=16)
    pivots.run(ck, G["progs"])
    # with the error handler, the number in the message is the number returned otherwise
    load(ck, [D, Z], names=[])
    pivots.messages(ck, G["progs"])
    ck.assume += [
        "contracts of the routines as transcribed in engine/spec_blas.py and engine/spec_lapack.py",
    ]
