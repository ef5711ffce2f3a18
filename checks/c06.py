"""C06 imaginary parts of the diagonal of Hermitian operands are ignored and results have a real diagonal"""
from formulas import *
import herm

LEVEL = "other"


def run(ck):
    thorough = TIER == "thorough"
    load(ck, [Z] + ([ZR] if thorough else []), names=set(herm.HERM) | set(herm.NORMS))
    G["check"] = herm.check
    res = sweep(ck, "C06", 300 if thorough else 20, budget=3600 if thorough else 600, expect=10, fn=one)
    ck.cov["terms"] = sum(r["n"].get("terms", 0) for r in res)
    ck.cov["note"] = "per routine and option value: final elements as polynomials of the entry values; diagonal of Hermitian results minus its conjugate is 0; conjugating the diagonal of Hermitian operands changes no element; the norms use diagonal elements through real() only"
    ck.floor("cases decided", sum(1 for r in res if r["n"].get("terms")), 20)
    ck.assume += ["arithmetic is exact", "operands do not overlap", "sizes up to 1e9"]
