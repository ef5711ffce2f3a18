"""C09 input-only arguments, and parts documented as unchanged, are not written"""
from sweep import *

LEVEL = "other"


def run(ck):
    standard(ck, {"C09"}, 220)
