"""Runs the abstract interpretation (engine/) over every routine with a
contract, one run per documented option value, on all cores."""
import time, traceback, json
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from common import *
import runner as RN

G = {}


def load(ck, exports_, names=None, tier=None):
    """exports_: list of (tag, kwargs of common.export)"""
    paths = exports([dict(kw) for _, kw in exports_])
    G["progs"] = [(tag, RN.Prog(p)) for (tag, _), p in zip(exports_, paths)]
    G["insts"] = []
    G["todo"] = []
    for pi, (tag, P) in enumerate(G["progs"]):
        for f, sp in RN.instances(P, names):
            G["insts"].append((pi, f, sp))
    for ii, (pi, f, sp) in enumerate(G["insts"]):
        P = G["progs"][pi][1]
        for d in RN.combos(P, f, sp, tier or TIER):
            G["todo"].append((ii, d))
    size = [len(str(f.get("body"))) for _, f, _ in G["insts"]]
    G["todo"].sort(key=lambda x: -size[x[0]])


def one(a):
    k, props, sec, t_end = a
    ii, d = G["todo"][k]
    pi, f, sp = G["insts"][ii]
    P = G["progs"][pi][1]
    o = {"k": k, "n": {}, "found": [], "state": "ok", "runs": 0, "t": 0, "ev": 0}
    if time.time() > t_end:
        o["state"] = "skipped"
        return o
    try:
        r = RN.analyse(P, f, sp, d, props, sec, judge=G.get("judge"))
        if r is None:
            o["state"] = "nocontract"
            return o
        o.update(n=r.n, state=r.state, runs=len(r.runs), t=r.t)
        o["ev"] = sum(len(R.I.ev) for R, _ in r.runs)
        o["found"] = [(x.pid, x.rule, x.where, x.msg, x.key) for x in r.found]
    except Exception:
        o["state"] = "exc " + traceback.format_exc()[-300:]
    return o


def pool(fn, jobs):
    with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(fn, jobs))


def sweep(ck, props, sec, budget=700, expect=0, fn=None):
    """expect: least number of analysed routines (checked by name), to notice
    vanished code"""
    t_end = ck.t0 + budget
    res = pool(fn or one, [(k, props, sec, t_end) for k in range(len(G["todo"]))])
    tot = {}
    st = {}
    bad = {}
    names = set()
    runs = ev = 0
    for r in res:
        ii, d = G["todo"][r["k"]]
        pi, f, sp = G["insts"][ii]
        tag = G["progs"][pi][0]
        s = r["state"].split(" ")[0]
        st[s] = st.get(s, 0) + 1
        if s != "ok":
            bad["%s %s[%s]" % (tag, f["n"], RN.optname(f, d))] = r["state"][:200]
        if s not in ("nocontract", "skipped", "exc"):
            names.add(f["n"])
        for a, b in r["n"].items():
            tot[a] = tot.get(a, 0) + b
        runs += r["runs"]
        ev += r["ev"]
        for pid, rule, where, msg, key in r["found"]:
            if pid == ck.pid:
                ck.violation(rule, where, msg, key)
    ck.cov.update(routines=len(names), instances=len(G["insts"]), option_cases=len(res), runs=runs, accesses_and_calls=ev, obligations=tot.get("obligations", 0),
                  proved=tot.get("proved", 0), undecided=tot.get("unknown", 0), scalars=",".join(t for t, _ in G["progs"]))
    ck.cov["status"] = st
    slow = sorted(res, key=lambda r: -r["t"])[:8]
    ck.cov["slowest"] = ["%s[%s] %.1fs" % (G["insts"][G["todo"][r["k"]][0]][1]["n"], RN.optname(G["insts"][G["todo"][r["k"]][0]][1], G["todo"][r["k"]][1]), r["t"]) for r in slow]
    ck.cov["not_fully_analysed"] = bad
    if st.get("exc", 0) > max(10, len(res) // 10):
        raise Broken("the analysis failed on %d of %d cases: %s" % (st["exc"], len(res), [v for v in bad.values() if v.startswith("exc")][:1]))
    ck.floor("routines", len(names) + st.get("skipped", 0), expect)
    return res


D = ("double", dict(scalar="double", layout="ColMajor"))
Z = ("complex<double>", dict(scalar="std::complex<double>", layout="ColMajor"))
DR = ("double row-major", dict(scalar="double", layout="RowMajor"))
ZR = ("complex<double> row-major", dict(scalar="std::complex<double>", layout="RowMajor"))


def standard(ck, props, expect, sec=None):
    thorough = TIER == "thorough"
    load(ck, [D, Z] + ([DR, ZR] if thorough else []))
    sweep(ck, props, sec or (120 if thorough else 5), budget=5400 if thorough else 700, expect=expect)
    ck.assume += [
        "contracts of the routines as transcribed in engine/spec_blas.py and engine/spec_lapack.py",
        "sizes below 2^31; the block size of blocked routines is instantiated (quick 3, thorough 1, 2, 3)",
        "only findings with an integer witness that involves no over-approximated quantity are reported; the others are counted as undecided",
    ]
