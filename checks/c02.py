"""C02 a conforming call reaches no throw, neither directly nor through a call whose requirement it breaks"""
from sweep import *

LEVEL = "other"


def run(ck):
    standard(ck, {"C02"}, 220)
