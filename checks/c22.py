"""C22 operands of internal calls: what the callee's contract lets it write does
not overlap any other operand that it reads or writes"""
from sweep import *
from runner import *

LEVEL = "other"
# documented as in-place in these operands
INPLACE = {}


def starts(a, b):
    """a was carved out of the beginning of b"""
    while getattr(a, "parent", None) and a.parent[1].const and a.parent[1].c == 0:
        a = a.parent[0]
        if a is b:
            return True
    return False


def judge(J):
    R, I = J.R, J.I
    for e in I.ev:
        if e.k != "C" or not e.val:
            continue
        nm, args, let, ff = e.x
        accs, els = e.val
        ws = [(v, a) for k, v, a in accs if k == "W"]
        done = set()
        for v, a in ws:
            twice = sum(1 for x in args if x is v) > 1
            for o, b in [(o, b) for k, o, b in accs if o is not v or twice and b is not a] + [(None, b) for b in els]:
                if b.root is not v.root and (starts(b.root, v.root) or starts(v.root, b.root)):
                    # the part begins where the whole begins
                    X = a.ctx & b.ctx
                    for x in (a, b):
                        for q in x.ix[:x.root.rank]:
                            X = X & rel(q, "==", 0)
                    J.test("C22", "operands-overlap", e, X, None, "call of %s: it writes %s, which contains %s" % (nm, v.root.name, b.root.name))
                    continue
                if b.root is not v.root or (id(b), id(a)) in done:
                    continue
                done.add((id(a), id(b)))
                X = a.ctx & b.ctx & rel(a.ix[0], "==", b.ix[0])
                if v.root.rank == 2:
                    X = X & rel(a.ix[1], "==", b.ix[1])
                J.test("C22", "operands-overlap", e, X, None, "call of %s: an element of %s that it writes is also an element of another operand" % (nm, v.root.name))


def run(ck):
    thorough = TIER == "thorough"
    G["judge"] = judge
    load(ck, [D, Z] + ([DR, ZR] if thorough else []))
    sweep(ck, {"C22"}, 120 if thorough else 5, budget=5400 if thorough else 700, expect=220)
    ck.assume += [
        "contracts of the routines as transcribed in engine/spec_blas.py and engine/spec_lapack.py",
        "operands are compared when they are views of the same array; two arrays carved out of one workspace by a split are disjoint",
        "operands of the analysed routine itself do not overlap",
    ]
