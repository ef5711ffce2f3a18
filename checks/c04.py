"""C04 only the documented triangle, band or part of an argument is read or written"""
from sweep import *

LEVEL = "other"


def run(ck):
    standard(ck, {"C04"}, 220)
