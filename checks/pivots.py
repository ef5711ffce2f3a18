"""pivot tests of the leaf factorizations: which signs of the tested quantity
lead to the failure report.  Every piece of data read is given one sign; the
statements are walked with three-valued conditions."""
from limits import kids, walk, LOOPS
import runner as RN
from spec import OPV

PD = ({"neg", "zero", "nan"}, {"pos"})
SG = ({"zero"}, {"pos", "neg"})
TABLE = {"potf2": PD, "potrf2": PD, "pttrf": ({"neg", "zero"}, {"pos"}), "getrf_level0": SG, "getrf_recursive": SG, "trtri_recursive": SG, "getri_uxli_work": SG, "hetf3": SG}
ABS = ("abs", "abs1", "fabs", "norm")
SAME = ("real", "conj", "sqrt")
CASTS = ("cast", "copy", "paren", "ctor", "init", "mat", "tmp")
DATA = object()


def strip(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "copy", "paren"):
        x = x["e"]
    return x


class Walk:
    def __init__(s, P, f, opts, sign):
        s.P, s.f, s.sign = P, f, sign
        s.opts = opts
        s.init = {}
        s.nasg = {}
        s.calls = set()
        s.hit = {}           # fail site -> reached without an undecided condition
        for x in walk(f["body"]):
            if x.get("k") == "decl":
                for v in x.get("v", []) if isinstance(x.get("v"), list) else []:
                    s.note(v)
            if x.get("k") == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                a = x["a"]
                if a.get("k") == "ref":
                    s.nasg[a["d"]] = s.nasg.get(a["d"], 0) + 1
                    if s.iscall(x["b"]):
                        s.calls.add(a["d"])
        s.ret = {s.strip(x["e"])["d"] for x in walk(f["body"]) if x.get("k") == "ret" and x.get("e") and s.strip(x["e"]).get("k") == "ref"}
        s.ret = {d for d in s.ret if s.nasg.get(d)}
        s.pars = {p["d"]: p["n"] for p in f["params"] if "d" in p}

    def note(s, v):
        if isinstance(v, dict) and "d" in v and v.get("init") is not None:
            s.init[v["d"]] = v["init"]
            if s.iscall(v["init"]):
                s.calls.add(v["d"])

    def strip(s, x):
        while isinstance(x, dict) and x.get("k") in ("cast", "copy", "paren"):
            x = x["e"]
        return x

    def name(s, x):
        q = s.P.fns[x["f"]] if isinstance(x.get("f"), int) else None
        return q["n"] if q else ""

    def kind(s, t):
        ty = s.P.base(t)
        if ty["k"] == "float" or ty.get("name") == "std::complex":
            return "flt"
        return ty["k"]

    def iscall(s, x):
        x = s.strip(x)
        return isinstance(x, dict) and x.get("k") == "call" and "t" in x and s.kind(x["t"]) == "int" and x.get("op") is None and s.name(x) in RN_INFO

    # value: sign name, ("b", bool), ("i", int) or None
    def val(s, x):
        k = x.get("k")
        if k == "c":
            try:
                v = float(x["v"])
            except (TypeError, ValueError):
                return None
            return ("num", v)
        if k in CASTS and isinstance(x.get("e"), dict):
            return s.val(x["e"])
        if k == "ctor" and isinstance(x.get("a"), list):
            v = [s.val(y) for y in x["a"]]
            if not v:
                return ("num", 0.0)
            return v[0]
        if k == "ref":
            if x.get("n") in s.opts:
                return ("num", float(s.opts[x["n"]])) if isinstance(s.opts[x["n"]], (int, float)) else None
            if x.get("d") in s.init and not s.nasg.get(x["d"]):
                v = s.val(s.init[x["d"]])
                if v is not None:
                    return v
            return s.sign if "t" in x and s.kind(x["t"]) == "flt" else None
        if k == "un":
            v = s.val(x["e"])
            if x["op"] == "!":
                return ("b", not v[1]) if isinstance(v, tuple) and v[0] == "b" else None
            if x["op"] == "-":
                if isinstance(v, tuple) and v[0] == "num":
                    return ("num", -v[1])
                return {"neg": "pos", "pos": "neg"}.get(v, v)
            if x["op"] == "+":
                return v
            return None
        if k == "bin" or k == "call" and x.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(x.get("a", [])) == 2:
            op = x["op"]
            a, b = (x["a"], x["b"]) if k == "bin" else x["a"]
            if op in ("&&", "||"):
                a, b = s.val(a), s.val(b)
                a = a[1] if isinstance(a, tuple) and a[0] == "b" else None
                b = b[1] if isinstance(b, tuple) and b[0] == "b" else None
                if op == "&&":
                    return ("b", False) if a is False or b is False else ("b", True) if a and b else None
                return ("b", True) if a or b else ("b", False) if a is False and b is False else None
            if op in ("==", "!=", "<", ">", "<=", ">="):
                a, b = s.val(a), s.val(b)
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "num":
                    return ("b", eval("%r %s %r" % (a[1], op, b[1])))
                if isinstance(a, tuple):
                    a, b = b, a
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if not isinstance(a, str) or b != ("num", 0.0):
                    return None
                if a == "nan":
                    return ("b", op == "!=")
                return ("b", eval("%d %s 0" % ({"neg": -1, "zero": 0, "pos": 1}[a], op)))
            if "t" in x and s.kind(x["t"]) == "flt":
                return s.sign
            return None
        if k == "cond":
            return None
        if k == "call":
            n = s.name(x)
            a = x.get("a", [])
            if n in ABS and a:
                v = s.val(a[0])
                return "pos" if v == "neg" else v if isinstance(v, str) else None
            if n in SAME and a:
                return s.val(a[0])
            if n == "isnan" and a:
                v = s.val(a[0])
                return ("b", v == "nan") if isinstance(v, str) else None
            if n in ("max", "min") and len(a) == 2:
                v, w = s.val(a[0]), s.val(a[1])
                return v if v == w else None
            if "t" in x and s.kind(x["t"]) == "flt":
                return s.sign
        return None

    def isflt(s, x):
        return any("t" in y and s.kind(y["t"]) == "flt" for y in walk(x))

    def exits(s, x):
        return any(y.get("k") in ("ret", "break", "continue") for y in walk(x)) or any(s.site(y) for y in walk(x))

    def site(s, x):
        """a report of a failure found here"""
        if x.get("k") == "ret" and x.get("e") is not None:
            e = s.strip(x["e"])
            if e.get("k") == "c" and e.get("v") == "0":
                return False
            return not any(y.get("k") == "ref" and (y["d"] in s.calls or y["d"] in s.ret and y is e) for y in walk(e)) and not any(s.iscall(y) for y in walk(e))
        if x.get("k") == "bin" and x.get("op") == "=" and x["a"].get("k") == "ref" and x["a"]["d"] in s.ret:
            e = s.strip(x["b"])
            return not (e.get("k") == "c" and e.get("v") == "0") and not any(y.get("k") == "ref" and y["d"] in s.calls for y in walk(e)) and not s.iscall(e)
        return False

    def ex(s, x, clean):
        """returns (falls through, still clean)"""
        if x is None:
            return True, clean
        if isinstance(x, list):
            for y in x:
                go, clean = s.ex(y, clean)
                if not go:
                    return False, clean
            return True, clean
        k = x.get("k")
        if k == "block":
            return s.ex(x.get("b"), clean)
        if k == "if":
            v = s.val(x["c"])
            v = v[1] if isinstance(v, tuple) and v[0] == "b" else None
            if v is True:
                return s.ex(x.get("t"), clean)
            if v is False:
                return s.ex(x.get("f"), clean)
            dirty = s.isflt(x["c"])
            g1, c1 = s.ex(x.get("t"), clean and not dirty)
            g2, c2 = s.ex(x.get("f"), clean and not dirty)
            if dirty and clean and not s.exits(x):
                return True, True
            return g1 or g2, (c1 and g1) or (c2 and g2)
        if k in LOOPS:
            s.ex(x.get("b"), clean)
            return True, clean
        if k == "try":
            return s.ex(x.get("b"), clean)
        if k == "ret":
            if s.site(x):
                s.hit[x["l"]] = s.hit.get(x["l"], False) or clean
            return False, clean
        if k in ("break", "continue", "throw") or k == "expr" and isinstance(x.get("e"), dict) and x["e"].get("k") == "throw":
            return False, clean
        for y in walk(x):
            if s.site(y):
                s.hit[y["l"]] = s.hit.get(y["l"], False) or clean
        return True, clean


RN_INFO = ("potf2", "potrf", "potrf2", "potrf_blocked", "potrf_rl", "getrf", "getrf_level0", "getrf_recursive", "trtri_recursive", "hetf3", "pttrf")


def run(ck, progs):
    sites = tests = 0
    done = set()
    for tag, P in progs:
        for f, sp in RN.instances(P, list(TABLE)):
            if f["n"] not in TABLE:
                continue
            for d in RN.combos(P, f, sp):
                bad, good = TABLE[f["n"]]
                if d.get("diag") == 85:
                    bad, good = set(), bad | good
                fl = "include/tlapack/" + P.file(f).split("tlapack/")[-1]
                hits = {}
                for sg in bad | good:
                    w = Walk(P, f, d, sg)
                    w.ex(f["body"], True)
                    hits[sg] = w.hit
                lines = set().union(*hits.values())
                sites += len(lines)
                for l in sorted(lines):
                    for sg in sorted(bad | good):
                        tests += 1
                        key = (f["n"], l, sg)
                        if sg in bad and l not in hits[sg]:
                            msg = "does not report a pivot that is %s" % NM[sg]
                        elif sg in good and hits[sg].get(l):
                            msg = "reports a failure for a pivot that is %s" % NM[sg]
                        else:
                            continue
                        if key not in done:
                            done.add(key)
                            ck.violation("pivot-test", "%s:%d (%s)" % (fl, l, f["n"]), "%s[%s]: %s" % (f["n"], RN.optname(f, d), msg), "%s/pivot/%s" % (f["n"], sg))
    ck.cov["pivot_failure_sites"] = sites
    ck.cov["pivot_sign_cases"] = tests


NM = {"neg": "negative", "zero": "zero", "nan": "not a number", "pos": "positive"}


def canon(x):
    """an expression without positions"""
    if isinstance(x, dict):
        if x.get("k") in ("cast", "copy", "paren"):
            return canon(x["e"])
        return tuple((k, canon(v)) for k, v in sorted(x.items()) if k not in ("l", "c", "t", "st"))
    if isinstance(x, list):
        return tuple(canon(y) for y in x)
    return x


def messages(ck, progs):
    n = 0
    done = set()
    for tag, P in progs:
        for f in P.fns:
            if not f or not f.get("body") or "tlapack/" not in P.file(f):
                continue
            for b in walk(f["body"]):
                if b.get("k") != "block" or not isinstance(b.get("b"), list):
                    continue
                for x, y in zip(b["b"], b["b"][1:]):
                    if y.get("k") != "ret" or y.get("e") is None or any(q.get("k") == "ret" for q in walk(x)):
                        continue
                    for t in walk(x):
                        if t.get("k") == "throw":
                            m = [q for q in walk(t) if q.get("k") == "call" and isinstance(q.get("f"), int) and P.fns[q["f"]] and P.fns[q["f"]]["n"] == "error_msg"]
                            if not m:
                                continue
                            n += 1
                            fl = "include/tlapack/" + P.file(f).split("tlapack/")[-1]
                            if canon(m[0]["a"][0]) != canon(y["e"]) and (fl, y["l"]) not in done:
                                done.add((fl, y["l"]))
                                ck.violation("message", "%s:%d (%s)" % (fl, y["l"], f["n"]), "%s: the number in the error message is not the number returned" % f["n"], "%s/message" % f["n"])
    ck.cov["reports_with_message"] = n


# a 1-by-1 and a 2-by-2 block can always be exchanged; the failed exchange of two blocks shows in ilst, which the deflation reads
IGNORED = {("schur_swap", "schur_swap"), ("aggressive_early_deflation_work", "schur_move"), ("aggressive_early_deflation", "schur_move"),
           ("aggressive_early_deflation_generalized", "generalized_schur_move")}


def discarded(ck, progs, reports):
    """info of a nested call that nothing looks at, or that ends in a return of 0"""
    n = m = 0
    done = set()
    for tag, P in progs:
        for f in P.fns:
            if not f or not f.get("body") or "tlapack/" not in P.file(f):
                continue
            fl = "include/tlapack/" + P.file(f).split("tlapack/")[-1]

            def nested(x):
                x = strip(x)
                if not isinstance(x, dict) or x.get("k") != "call" or not isinstance(x.get("f"), int):
                    return None
                q = P.fns[x["f"]]
                if q and q["n"] in reports and "tlapack/" in P.file(q) and P.base(q["ret"]).get("s") == "int" and (f["n"], q["n"]) not in IGNORED:
                    return q["n"]
            var = {}
            reads = {}
            for b in walk(f["body"]):
                k = b.get("k")
                if k == "decl":
                    for v in b.get("v") or []:
                        if isinstance(v, dict) and nested(v.get("init")):
                            var[v["d"]] = (nested(v["init"]), v["l"])
                if k == "bin" and b.get("op") == "=" and b["a"].get("k") == "ref":
                    if nested(b["b"]):
                        var[b["a"]["d"]] = (nested(b["b"]), b["l"])
                    reads[b["a"]["d"]] = reads.get(b["a"]["d"], 0) - 1
                if k == "ref" and "d" in b:
                    reads[b["d"]] = reads.get(b["d"], 0) + 1
                if k == "expr" and nested(b.get("e")):
                    n += 1
                    e = strip(b["e"])
                    q = nested(e)
                    if q == "trtri_recursive" and any(unit(P, a) for a in e["a"]) or (fl, b["l"]) in done:
                        continue
                    done.add((fl, b["l"]))
                    ck.violation("result-discarded", "%s:%d (%s)" % (fl, b["l"], f["n"]), "%s does not look at what %s returns" % (f["n"], q), "%s/discards/%s" % (f["n"], q))
            for d, (q, l) in var.items():
                m += 1
                if not reads.get(d) and (fl, l) not in done:
                    done.add((fl, l))
                    ck.violation("result-discarded", "%s:%d (%s)" % (fl, l, f["n"]), "%s does not look at what %s returns" % (f["n"], q), "%s/discards/%s" % (f["n"], q))
            if P.base(f["ret"]).get("s") != "int":
                continue
            for b in walk(f["body"]):
                if b.get("k") != "if":
                    continue
                pol = failed(b["c"], var)
                if pol is None:
                    continue
                br = b.get("t") if pol else b.get("f")
                last = br
                while isinstance(last, dict) and last.get("k") == "block":
                    last = last["b"][-1] if isinstance(last.get("b"), list) and last["b"] else None
                m += 1
                if isinstance(last, dict) and last.get("k") == "ret" and last.get("e") is not None:
                    e = strip(last["e"])
                    if e.get("k") == "c" and e.get("v") == "0" and (fl, last["l"]) not in done:
                        done.add((fl, last["l"]))
                        ck.violation("failure-lost", "%s:%d (%s)" % (fl, last["l"], f["n"]), "%s returns 0 where %s failed" % (f["n"], var[[y["d"] for y in walk(b["c"]) if y.get("k") == "ref" and y.get("d") in var][0]][0]), "%s/returns-0" % f["n"])
    ck.cov["ignored_results"] = n
    ck.cov["info_variables_and_tests"] = m


def unit(P, a):
    if not isinstance(a, dict) or "t" not in a:
        return False
    nm = str(P.base(a["t"]).get("name", ""))
    a = strip(a)
    return nm.endswith("Diag") and a.get("v") == "85" or nm.split("::")[-1].startswith("Unit")


def failed(c, var):
    """True: the condition holds after a failure, False: it holds after success"""
    c = strip(c)
    if not isinstance(c, dict):
        return None
    if c.get("k") == "un" and c.get("op") == "!":
        r = failed(c["e"], var)
        return None if r is None else not r
    if c.get("k") == "ref":
        return True if c.get("d") in var else None
    if c.get("k") == "bin" and c.get("op") in ("==", "!=", ">"):
        a, b = strip(c["a"]), strip(c["b"])
        if isinstance(a, dict) and a.get("k") == "ref" and a.get("d") in var and isinstance(b, dict) and b.get("v") == "0":
            return c["op"] != "=="
    return None
