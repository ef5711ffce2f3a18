"""C20 nothing is read that the contract does not provide and that was not written before"""
from sweep import *

LEVEL = "other"


def run(ck):
    standard(ck, {"C20"}, 220)
