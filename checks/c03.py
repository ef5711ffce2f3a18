"""C03 a call that breaks one checked requirement, or passes an undocumented
value of a checked option, ends in an exception before any output is written"""
from sweep import *
import neg

LEVEL = "other"


def rej(a):
    k, props, sec, t_end = a
    ii, d = G["todo"][k]
    pi, f, sp = G["insts"][ii]
    o = {"k": k, "n": {}, "found": [], "state": "ok", "runs": 0, "t": 0, "ev": 0}
    t = time.time()
    if t > t_end:
        o["state"] = "skipped"
        return o
    try:
        r = neg.rejects(G["progs"][pi][1], f, sp, d, sec)
        o["n"] = r.n
        o["runs"] = r.n["clauses"]
        o["found"] = [(x.pid, x.rule, x.where, x.msg, x.key) for x in r.found]
    except Exception:
        o["state"] = "exc " + traceback.format_exc()[-300:]
    o["t"] = time.time() - t
    return o


def run(ck):
    thorough = TIER == "thorough"
    load(ck, [D, Z] + ([DR, ZR] if thorough else []))
    res = sweep(ck, {"C03"}, 60 if thorough else 5, 5400 if thorough else 700, 220, fn=rej)
    n = {}
    for r in res:
        for a, b in r["n"].items():
            n[a] = n.get(a, 0) + b
    ck.cov["clauses"] = n.get("clauses", 0)
    ck.cov["undecided_clauses"] = n.get("undecided_clauses", 0)
    ck.cov["clauses_that_no_call_can_break_alone"] = n.get("vacuous", 0)
    ck.cov["rule"] = "for each checked clause: assume all others, negate it; no write to an argument and no normal return may be reachable"
    ck.floor("clauses", n.get("clauses", 0) + 4 * ck.cov["status"].get("skipped", 0), 4000)
    ck.assume += ["the clauses checked by the pinned tree, marked in engine/spec_*.py", "a call in which every operand is non-empty; an empty problem may be left alone without looking at the arguments",
                  "exceptions of called routines count as rejection when their contract says the clause is checked there; that is the C03 obligation of the callee"]
