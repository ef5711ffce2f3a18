"""C08 without beta the previous contents of the output are never read: no element
of the output is read before it is written, and the final values are the
documented formula, which has no term in the old output"""
from formulas import *
from runner import *

LEVEL = "other"
NAMES = "gemm gemv hemm symm hemv symv herk syrk her2k syr2k hemm2 trmm_out mult_hehe gemmtr"


def nobeta(P, f, sp):
    """the contract of this instance does not let the output be read"""
    try:
        d = next(iter(RN.combos(P, f, sp)), None)
        if d is None:
            return False
        R = RN.prepare(P, f, sp, d)
    except RN.NoContract:
        return False
    out = [i for i, a in R.con.wr.items() if a]
    return bool(out) and not any(R.con.rd.get(i) for i in out)


def judge(J):
    J.uninit()
    outs = {i for i, a in J.R.con.wr.items() if a}
    J.found = [Finding("C08", "old-output-read", x.where, x.msg, x.key) for x in J.found if x.pid == "C20"]


def run(ck):
    thorough = TIER == "thorough"
    load(ck, [D, Z] + ([DR, ZR] if thorough else []), names=set(NAMES.split()))
    keep = [nobeta(G["progs"][pi][1], f, sp) for pi, f, sp in G["insts"]]
    G["todo"] = [(i, d) for i, d in G["todo"] if keep[i]]
    ck.cov["instances_without_beta"] = sum(keep)
    G["judge"] = judge
    sweep(ck, {"C20"}, 120 if thorough else 10, expect=9)
    cov = dict(ck.cov)
    select(None)
    res = sweep(ck, "C08", 300 if thorough else 20, budget=3600 if thorough else 600, expect=9, fn=one)
    ck.floor("cases decided", sum(1 for r in res if r["n"].get("terms")), 40)
    ck.cov = {"old_contents": cov, **ck.cov}
    for k in ("obligations", "proved", "undecided", "option_cases"):
        ck.cov[k] = ck.cov.get(k, 0) + cov.get(k, 0)
    ck.assume += ["contracts (engine/spec_blas.py) and formulas (engine/spec_formula.py) as transcribed", "operands do not overlap"]
