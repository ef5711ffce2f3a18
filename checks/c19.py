"""C19 NaN (and Inf for the scans) is never hidden: every referenced element is
read (region coverage, all sizes), and a poisoned element always shows in the
result (abstract interpretation with one poisoned element)"""
from sweep import *
from runner import *
import nanflow as NF

LEVEL = "other"
NORMS = "lange lansy lanhe lantr asum nrm2 infnorm_colmajor_work infnorm_symmetric_colmajor_work infnorm_hermitian_colmajor_work infnorm_triangular_colmajor_work"
SCANS = "hasnan hasinf"
ALL = set((NORMS + " " + SCANS + " lassq iamax iamax_ec").split())


def coverage(J):
    """every element of the referenced region is read"""
    R, I = J.R, J.I
    roots = {r.id: r for r in R.c.roots.values()}
    p, q = Lin.sym("p_"), Lin.sym("q_")
    # sizes for which the routine returns at all
    dm = {n_ for n_, sy in I.syms.items() if sy.kind == "dim"}
    base = FALSE
    for st, v in R.outs:
        base = base | (st.ctx.project([z for z in st.ctx.params() if z not in dm]) if st.ctx is not TRUE and st.ctx is not FALSE else st.ctx)
    for rid, rd in R.con.rd.items():
        root = roots.get(rid)
        if root is None or not rd or root.role == "work":
            continue
        X = base & R.ctx0 & J.allowed(rd, root, p, q) & rel(p, ">=", 0) & rel(p, "<", root.nr) & rel(q, ">=", 0) & rel(q, "<", root.nc)
        dims = {n_ for n_, sy in I.syms.items() if sy.kind == "dim"} | {"p_", "q_"}
        last = None
        for e in I.ev:
            if e.k != "R" or e.root.id != rid:
                continue
            last = e
            Y = e.ctx & rel(e.ix[0], "==", p)
            if root.rank == 2:
                Y = Y & rel(e.ix[1], "==", q)
            Y = Y.project([z for z in Y.params() if z not in dims])
            X = X - Y
        X = X.project([z for z in ("p_", "q_") if X is not TRUE and X is not FALSE and z in X.params()])
        J.test("C19", "element-not-looked-at", last if last is not None else where_fn(R), X, None, "an element of the referenced part of %s is not looked at" % root.name)


def where_fn(R):
    return "%s:%d (%s)" % ("include/tlapack/" + R.I.P.file(R.f).split("/tlapack/", 1)[1], R.f["line"], R.f["n"])


def flows(ck, progs):
    cases = states = und = 0
    names = set()
    notes = {}
    done = set()
    for tag, P in progs:
        for f, sp in RN.instances(P, ALL):
            n = f["n"]
            fl = "include/tlapack/" + P.file(f).split("/tlapack/", 1)[1]
            for d in RN.combos(P, f, sp):
                for src in sources(P, f, n):
                    for poison in POISON.get(n, ("nan",)):
                        cases += 1
                        try:
                            bad, steps = one_case(P, f, n, d, src, poison)
                        except NF.Undecided as x:
                            und += 1
                            notes["%s %s[%s]" % (tag, n, RN.optname(f, d))] = str(x)
                            continue
                        names.add(n)
                        states += steps
                        for l, msg in bad:
                            if l is None:
                                und += 1
                                notes["%s %s[%s]" % (tag, n, RN.optname(f, d))] = msg
                            elif (n, l, msg) not in done:
                                done.add((n, l, msg))
                                ck.violation("nan-hidden" if poison == "nan" else "inf-hidden", "%s:%d (%s)" % (fl, l, n), "%s[%s]: %s" % (n, RN.optname(f, d), msg), "%s/%s" % (n, poison))
    ck.cov["flow_cases"] = cases
    ck.cov["flow_steps"] = states
    ck.cov["flow_undecided"] = notes
    ck.floor("routines of the NaN flow", len(names), 10)


POISON = {"hasinf": ("inf",), "iamax": ("nan", "inf"), "iamax_ec": ("nan", "inf")}


def sources(P, f, n):
    out = [p["n"] for p, c in zip(f["params"], f["_letters"]) if c in "mv" and p["n"] != "work"][:1]
    if n == "lassq":
        out += ["scale", "sumsq"]
    return out


def one_case(P, f, n, d, src, poison):
    # with a magnitude function of the caller's, the imaginary part may not count
    F = NF.Flow(P, poison, imag=not (n == "lassq" and "o" in f["_letters"]) and n not in ("lanhe", "infnorm_hermitian_colmajor_work"), fields={"nan": ("b", True)} if n == "iamax" else {})
    st = NF.S()
    outs = []
    for p, c in zip(f["params"], f["_letters"]):
        k = p.get("d")
        if k is None:
            continue
        if p["n"] == src and c in "mv":
            st.env[k] = ("v", "a%s" % k, "")
        elif c in "mvw":
            st.env[k] = ("v", "w%s" % k, "")
        elif F.kind(p["t"]) == "flt":
            st.env[k] = "nan" if p["n"] == src else "num"
            st.seen = st.seen or p["n"] == src
            outs.append(k)
        elif p["n"] in d and isinstance(d[p["n"]], (bool, int)):
            st.env[k] = ("b", d[p["n"]]) if isinstance(d[p["n"]], bool) else ("t", str(d[p["n"]]))
        elif F.kind(p["t"]) in ("int", "enum"):
            st.env[k] = ("t", "#%s#" % k)
        else:
            st.env[k] = ("l", "arg")
    r = F.ex(f["body"], [st])
    bad = []
    what = "NaN" if poison == "nan" else "Inf"
    res = [(v, t, v0) for v, t, v0 in [(v, t, None) for v, t in r["ret"]] + [(None, t, None) for t in r["fall"]]]
    if not any(t.seen for _, t, _ in res):
        raise NF.Undecided("no element is read")
    for v, t, _ in res:
        if not t.seen or t.wn and not t.picked:
            continue
        if n == "lassq":
            if any(t.env.get(k) in ("nan", "nani") for k in outs):
                continue
            if not all(isinstance(t.env.get(k), str) for k in outs):
                raise NF.Undecided("result not followed")
            msg = "neither scale nor sumsq is NaN after a NaN in %s" % src
        elif n in ("hasnan", "hasinf"):
            if v == ("b", True):
                continue
            if v is None:
                raise NF.Undecided("result not followed")
            msg = "does not report an element that is %s" % what
        elif n in ("iamax", "iamax_ec"):
            if isinstance(v, tuple) and v[0] == "t" and v[1] in t.pidx:
                continue
            if v is None:
                raise NF.Undecided("result not followed")
            msg = "does not return the index of the element that is %s" % what
        else:
            if v in ("nan", "nani"):
                continue
            if not isinstance(v, str):
                raise NF.Undecided("result not followed")
            msg = "returns a number although a referenced element is NaN"
        bad.append((None if t.doubt else f["body"].get("l", f["line"]), msg))
    if any(l is None for l, _ in bad) and all(l is None for l, _ in bad):
        return [(None, "only on paths that look at the operand twice")], F.steps
    return [b for b in bad if b[0] is not None], F.steps


def run(ck):
    thorough = TIER == "thorough"
    G["judge"] = coverage
    load(ck, [D, Z] + ([DR, ZR] if thorough else []), names=ALL - {"iamax"})
    sweep(ck, {"C19"}, 120 if thorough else 20, expect=10)
    flows(ck, G["progs"])
    ck.assume += [
        "abs, abs1, sqrt, conj and real return NaN for NaN; isnan and isinf are exact; std::max(a,b) is (a<b)?b:a",
        "one poisoned element at a time; its sign, and the values of all others, are arbitrary",
        "complex elements with one infinite and one NaN part, for which |z| may be Inf, are not considered",
    ]
