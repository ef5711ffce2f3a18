"""C01 every element access and every sub-view lies inside its array, for all sizes"""
from sweep import *

LEVEL = "other"


def run(ck):
    standard(ck, {"C01"}, 220)
