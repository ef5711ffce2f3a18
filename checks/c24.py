"""C24 block and recursive algorithms satisfy their defining equation: the final
value of every element, with recursive and inner calls replaced by their formulas;
factorizations, inverses and solves by composing their calls as block polynomials"""
from formulas import *
import blockalg as BA

LEVEL = "other"
NAMES = "lauum_recursive mult_llh mult_uhu lu_mult ul_mult gemmtr hemm2 mult_hehe trmm_out trsm_tri trmm_blocked_mixed larf larf_work larfb larfb_work"


def check(P, f, sp, d, sec, props):
    return (BA.check if f["n"] in BA.RULES else FM.check_formula)(P, f, sp, d, sec, props)


def run(ck):
    G["check"] = check
    G["also"] = set(BA.RULES)
    run_formulas(ck, NAMES + " " + " ".join(BA.RULES), 16, 60)
    ck.assume.append("block equations: calls return success (info 0), triangular and diagonal blocks that are divided by are invertible; one pass of a blocked loop or one level of recursion at a time, the rest by induction on the size")
