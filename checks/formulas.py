"""Final element values against the documented formula, for every routine with
a formula and every documented option value."""
from sweep import *
import formula as FM


def one(a):
    k, props, sec, t_end = a
    ii, d = G["todo"][k]
    pi, f, sp = G["insts"][ii]
    P = G["progs"][pi][1]
    o = {"k": k, "n": {}, "found": [], "state": "ok", "runs": 1, "t": 0, "ev": 0}
    if time.time() > t_end:
        o["state"] = "skipped"
        return o
    t = time.time()
    try:
        r = G.get("check", FM.check_formula)(P, f, sp, d, sec, props)
        o["state"] = r["state"].replace(" ", "_")
        o["n"] = {"obligations": r["arrays"], "proved": r["equal"], "terms": r["terms"], "unknown": r.get("undecided", 0)}
        o["found"] = [(x.pid, x.rule, x.where, x.msg, x.key) for x in r["found"]]
    except Exception:
        o["state"] = "exc " + traceback.format_exc()[-300:]
    o["t"] = time.time() - t
    return o


def select(names):
    G["todo"] = [(i, d) for i, d in G["todo"] if G["insts"][i][1]["n"] in G.get("also", ()) or FM.find_formula(G["insts"][i][1])]
    G["insts"] = list(G["insts"])


def run_formulas(ck, names, expect, cases, sec=None):
    thorough = TIER == "thorough"
    load(ck, [D, Z] + ([DR, ZR] if thorough else []), names=set(names.split()))
    select(names)
    res = sweep(ck, ck.pid, sec or (300 if thorough else 20), budget=3600 if thorough else 600, expect=expect, fn=one)
    ck.cov["terms"] = sum(r["n"].get("terms", 0) for r in res)
    eq = sum(1 for r in res if r["state"] == "ok" and r["n"].get("terms"))
    ck.cov["cases_equal_to_the_formula"] = eq
    ck.cov["note"] = "a case is one instance with one value per option; proved cases hold for all sizes at once"
    ck.floor("cases decided", sum(1 for r in res if r["n"].get("terms")), cases)
    ck.assume += [
        "formulas as transcribed in engine/spec_formula.py; arithmetic is exact",
        "operands do not overlap; a formula in terms of final values (solves) is the defining relation of the documented solution",
        "sizes up to 1e9; block sizes of blocked routines are instantiated",
    ]
