"""C23 allocating forms and front-ends forward every argument, in the matching
position, with the options of the routine itself, to the routine they stand for"""
import json, os
from sweep import *
from runner import *

LEVEL = "other"
HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = json.load(open(os.path.join(HERE, "forward.json")))
FAM = [{"geqrf", "gelqf", "geqlf", "gerqf"}, {"geqr2", "gelq2", "geql2", "gerq2"}]
FAM += [{n + "_work" for n in f} for f in FAM]


def leaf(x):
    return isinstance(x, F) and x.k == "v" and len(x.a) == 1


def differs(J, e, i, own, a, c, what):
    """obligation: argument a of the call is the routine's own argument"""
    n = J.n
    if isinstance(own, View) and isinstance(a, View):
        if a.root is not own.root:
            if getattr(a.root, "role", "") in ("in", "out", "inout", "arg") or any(isinstance(o, View) and o.root is a.root for o in J.R.args):
                J.test("C23", "wrong-argument", e, e.ctx, None, what + " is %s" % a.root.name, preds=False)
            else:
                n["obligations"] += 1
                n["unknown"] += 1
            return
        X = e.ctx
        if own.m == a.m:
            Y = rel(a.nr, "==", own.nr)
            if own.rank == 2:
                Y = Y & rel(a.nc, "==", own.nc)
            J.test("C23", "wrong-argument", e, X, Y, what + " has other extents", preds=False)
        else:
            # first element
            X = X & rel(a.nr, ">", 1)
            Y = TRUE
            for p, q in ((L(0), L(0)), (L(1), L(0))) + (((L(0), L(1)),) if own.rank == 2 else ()):
                u, v = own.at(p, q) if own.rank == 2 else own.at(p), a.at(p, q) if a.rank == 2 else a.at(p)
                for s, t in zip(u, v):
                    Y = Y & rel(s, "==", t)
            if own.rank == 2:
                X = X & rel(a.nc, ">", 1)
            J.test("C23", "wrong-argument", e, X, Y, what + " is another part of %s" % a.root.name, preds=False)
    elif isinstance(own, Lin) and isinstance(a, Lin):
        J.test("C23", "wrong-argument", e, e.ctx, rel(own, "==", a), what + " has another value", preds=False)
    elif c in "OUSDFVN" and isinstance(own, int) and isinstance(a, int):
        J.test("C23", "wrong-argument", e, FALSE if own == a else e.ctx, None, what + " is '%s' when '%s' is given" % (chr(a), chr(own)), preds=False)
    elif isinstance(own, Rec) and isinstance(a, Rec):
        for k in set(own.f) & set(a.f):
            u, v = own.f[k], a.f[k]
            if isinstance(u, int):
                u = L(u)
            if isinstance(v, int):
                v = L(v)
            if isinstance(u, Lin) and isinstance(v, Lin):
                J.test("C23", "wrong-argument", e, e.ctx, rel(u, "==", v), what + ": option %s has another value" % k, preds=False)
    elif leaf(own) and leaf(a):
        J.test("C23", "wrong-argument", e, FALSE if own == a else e.ctx, None, what + " is another scalar", preds=False)
    else:
        n["obligations"] += 1
        n["proved" if own is a or isinstance(own, (F, B)) and own == a else "unknown"] += 1


def judge(J):
    R, I = J.R, J.I
    x, lx = R.f["n"], R.f["_letters"]
    rows = [r for r in TABLE if r["front"] == x and r["letters"] == lx]
    if not rows:
        return
    own = [q["n"] for q in R.f["params"]]
    var = [dict(zip(v[::2], v[1::2])).get("variant") for v in R.opts.values() if isinstance(v, tuple)]
    var = [v for v in var if v is not None]
    meant = {r["callee"] for r in rows if r.get("variant") in var}
    others = {r["callee"] for r in rows} - meant if meant else set()
    for e in I.ev:
        if e.k != "C" or not e.fn or e.fn["n"] != x:
            continue
        nm, args, let, ff = e.x
        if nm in others:
            J.test("C23", "wrong-selection", e, e.ctx, None, "calls %s, variant '%s' means %s" % (nm, chr(var[0]), "/".join(sorted(meant))), preds=False)
            continue
        for r in rows:
            if r.get("variant", None) not in [None] + var:
                continue
            if nm == r["callee"] and let == r["callee_letters"]:
                for i, j in enumerate(r["args"]):
                    if j is not None and i < len(R.args):
                        differs(J, e, i, R.args[i], args[j], let[j], "argument %d of %s, which stands for '%s'," % (j + 1, nm, own[i]))
                for j, c in r["fixed"].items():
                    a = args[int(j)]
                    if isinstance(a, int):
                        J.test("C23", "wrong-selection", e, FALSE if a == ord(c) else e.ctx, None, "argument %d of %s is '%s', '%s' is meant" % (int(j) + 1, nm, chr(a), c), preds=False)
            elif nm != r["callee"] and any(nm in f and r["callee"] in f for f in FAM):
                J.test("C23", "wrong-selection", e, e.ctx, None, "calls %s, %s is meant" % (nm, r["callee"]), preds=False)
    return


def run(ck):
    thorough = TIER == "thorough"
    G["judge"] = judge
    names = sorted({r["front"] for r in TABLE})
    load(ck, [D, Z] + ([DR, ZR] if thorough else []), names)
    sweep(ck, {"C23"}, 120 if thorough else 8, budget=5400 if thorough else 700, expect=70)
    ck.cov["forwarding_pairs"] = len(TABLE)
    ck.assume += ["checks/forward.json lists, for each front-end, the routine it stands for and which of its arguments each of its own corresponds to"]
