"""Calls that break exactly one checked requirement must end in an exception
before anything is modified."""
from runner import *
import spec as SP


class Res:
    pass


def judge_neg(R, what, res, pid="C03"):
    I = R.I
    J = Judge(R, {pid})
    roots = {r.id: r for r in R.c.roots.values()}
    hit = False
    for e in I.ev:
        if e.k == "W" and e.root.id in roots and e.root.role != "work":
            r, c = e.ix
            J.test(pid, "modified-before-rejection", e, e.ctx, None, "%s: element %s(%s,%s) is written" % (what, e.root.name, r, c), preds=False)
        elif e.k == "Q" and not e.x[3]:
            J.test(pid, "not-rejected", e, e.ctx, e.x[1], "%s: not rejected before %s is called against its unchecked requirement '%s'" % (what, e.x[2], e.x[0]), preds=False)
        if J.found:
            break
    if not J.found:
        # an empty problem may be left alone without looking at the arguments
        some = TRUE
        for r in roots.values():
            if r.role != "work":
                some = some & rel(r.nr, ">=", 1) & rel(r.nc, ">=", 1)
        for st, v in R.outs:
            e = SimpleEv(R.f, I)
            J.test(pid, "not-rejected", e, st.ctx & some, None, "%s: returns normally" % what, preds=False)
            if J.found:
                break
    for f in J.found[:1]:
        f.key = "%s/%s" % (R.f["n"], what)
        res.found.append(f)
    for k, v in J.n.items():
        res.n[k] = res.n.get(k, 0) + v


class SimpleEv:
    exact = True

    def __init__(s, f, I):
        s.loc = (I.P.file(f), f["line"])
        s.fn = f


def rejects(P, f, sp, d, seconds):
    res = Res()
    res.found = []
    res.n = {"clauses": 0, "obligations": 0, "proved": 0, "unknown": 0, "vacuous": 0, "undecided_clauses": 0}
    try:
        R0 = prepare(P, f, sp, d)
    except NoContract:
        return res
    for k, (why, cond, chk) in enumerate(R0.con.reqs):
        if not chk:
            continue
        try:
            R = prepare(P, f, sp, d, neg=k)
        except NoContract:
            continue
        execute(R, seconds)
        if R.status == "vacuous":
            res.n["vacuous"] += 1
            continue
        res.n["clauses"] += 1
        if R.status != "ok":
            res.n["undecided_clauses"] += 1
        judge_neg(R, "requirement '%s' broken" % why, res)
    # undocumented option values
    ax = []
    for p, c in zip(f["params"], f["_letters"]):
        ty = P.base(p["t"])
        if c in "OUSDFVN" and ty["k"] == "enum" and p["n"] in d:
            k = f["params"].index(p)
            if c in sp.opts.get("unchecked", ""):
                continue        # the routine documents the values but does not check them
            doc = SP.documented(P, f, sp, k, c)
            if d[p["n"]] != doc[0]:
                continue
            for v in ALLV[c]:
                if v not in doc and v not in sp.opts.get("also", ()):
                    d2 = dict(d)
                    d2[p["n"]] = v
                    ax.append((p["n"], NAMES[c].get(v, v), d2))
    for nm, vn, d2 in ax:
        try:
            R = prepare(P, f, sp, d2, copts=d)
        except NoContract:
            continue
        execute(R, seconds)
        if R.status == "vacuous":
            res.n["vacuous"] += 1
            continue
        res.n["clauses"] += 1
        if R.status != "ok":
            res.n["undecided_clauses"] += 1
        judge_neg(R, "option %s=%s" % (nm, vn), res)
    return res
