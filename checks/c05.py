"""C05 BLAS routines compute their documented formula"""
from formulas import *

LEVEL = "other"
NAMES = "axpy copy swap rot scal dot dotu asum ger geru gemv gemm hemm symm hemv symv her syr her2 syr2 herk syrk her2k syr2k trmm trmv trsm trsv"


def run(ck):
    run_formulas(ck, NAMES, len(NAMES.split()), 200)
