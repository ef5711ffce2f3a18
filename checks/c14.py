"""C14: the C, CBLAS and Fortran bindings agree with the C++ routines.

Analysed per run: src/tlapack_cwrappers.cpp in both of its configurations
(resolved syntax tree), include/tlapack.h.in and tlapack_cblas.h.in read as C
by clang, src/tlapack.fi.in and src/tlapack.f90 resolved by gfortran's front
end.  Nothing is run: the wrappers are evaluated symbolically, every
enumeration argument taking each of its declared values."""
import itertools, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

LEVEL = "other"
RULE = ("each entry point calls the tlapack routine of its name exactly once on every path, with argument i "
        "being its own parameter i (pointers unchanged, values unnarrowed, enumerators mapped to the enumerator "
        "of the same name), instantiated for the scalar type of its name, and returns that result; declarations of "
        "one entry point in C, CBLAS and Fortran agree in order, types and enumeration values")

# enumerators by C++ type: the documented characters
CXX = {"tlapack::Layout": {"ColMajor": "C", "RowMajor": "R"},
       "tlapack::Op": {"NoTrans": "N", "Trans": "T", "ConjTrans": "C", "Conj": "J"},
       "tlapack::Uplo": {"Upper": "U", "Lower": "L", "General": "G"},
       "tlapack::Diag": {"NonUnit": "N", "Unit": "U"},
       "tlapack::Side": {"Left": "L", "Right": "R"}}
CNAME = {"Layout": "tlapack::Layout", "Op": "tlapack::Op", "Uplo": "tlapack::Uplo", "Diag": "tlapack::Diag",
         "Side": "tlapack::Side", "CBLAS_LAYOUT": "tlapack::Layout", "CBLAS_TRANSPOSE": "tlapack::Op",
         "CBLAS_UPLO": "tlapack::Uplo", "CBLAS_DIAG": "tlapack::Diag", "CBLAS_SIDE": "tlapack::Side"}
CBLASVAL = {"CblasRowMajor": 101, "CblasColMajor": 102, "CblasNoTrans": 111, "CblasTrans": 112,
            "CblasConjTrans": 113, "CblasUpper": 121, "CblasLower": 122, "CblasNonUnit": 131, "CblasUnit": 132,
            "CblasLeft": 141, "CblasRight": 142}
ROUTINES = ("asum axpy copy dot dotu iamax nrm2 rot rotg rotm rotmg scal swap gemv ger geru hemv her her2 symv syr "
            "syr2 trmv trsv gemm hemm herk her2k symm syrk syr2k trmm trsm").split()
# parameter order of the C++ routines: the interface the bindings are declared against
SCAL = {"s": "float", "d": "double", "c": "std::complex<float>", "z": "std::complex<double>"}


def split_name(nm):
    """entry point -> (routine, scalar letter) or None"""
    for pre, let in (("cs", "c"), ("zd", "z"), ("i", None), ("s", "s"), ("d", "d"), ("c", "c"), ("z", "z"),
                     ("sc", "c"), ("dz", "z")):
        if nm.startswith(pre):
            r = nm[len(pre):]
            if let is None:
                if r[:1] in SCAL and r[1:] == "amax":
                    return "iamax", r[:1]
                continue
            if r in ROUTINES:
                return r, let
    return None


# ---------------------------------------------------------------- C++ side
class Undecided(Exception):
    pass


class Cell:
    __slots__ = ("v", "t")

    def __init__(s, v, t):
        s.v, s.t = v, t


def norm(s):
    """scalar type name, representation only"""
    s = re.sub(r"\b(const|volatile|struct|enum)\b", "", s)
    s = re.sub(r"\s+", " ", s).strip()
    m = re.fullmatch(r"(?:_Complex (float|double)|(float|double) _Complex)", s)
    if m:
        return "std::complex<%s>" % (m.group(1) or m.group(2))
    return s


class Eval:
    """one wrapper, all enumeration parameters concrete.  Values:
    ("p",i,conv) value of parameter i after the conversions conv
    ("k",v) integer constant   ("&",cell)   ("res",n) result of call n
    ("*",("p",i)) the object parameter i points to   ("?",)"""

    def __init__(s, D, main):
        s.T, s.F, s.G = D["types"], {f["id"]: f for f in D["fns"]}, D
        s.main = main
        s.files = D["files"]
        s.calls = []

    def tname(s, t):
        return norm(s.T[t].get("s", ""))

    def paths(s, f, args):
        """(result, calls, branch facts, opaque) of every path"""
        todo, out = [[]], []
        while todo:
            s.script = todo.pop()
            s.pos, s.facts, s.opaque = 0, [], False
            s.calls, s.steps = [], 0
            r = s.fn(f, [Cell(a, p["t"]) for a, p in zip(args, f["params"])])
            out.append((r, s.calls, s.facts, s.opaque))
            if len(out) > 64:
                raise Undecided("too many paths")
            for i in range(len(s.script), s.pos):
                todo.append([b for _, b in s.facts[:i]] + [False])
        return out

    def simple(s, c):
        return c[0] in ("p", "k") or c[0] == "op" and c[1] != "ctor" and all(s.simple(x) for x in c[2:])

    def decide(s, c):
        if c[0] == "k":
            return bool(c[1])
        if not s.simple(c):
            s.opaque = True
        b = s.script[s.pos] if s.pos < len(s.script) else True
        s.pos += 1
        s.facts.append((c, b))
        return b

    def fn(s, f, cells):
        s.steps += 1
        if s.steps > 200:
            raise Undecided("recursion")
        env = {}
        for p, c in zip(f["params"], cells):
            env[p["d"]] = c
        r = s.stmt(f["body"], env)
        return r[1] if r else None

    def stmt(s, n, env):
        k = n["k"]
        if k == "block":
            for b in n["b"]:
                r = s.stmt(b, env)
                if r:
                    return r
            return None
        if k == "ret":
            return ("ret", s.val(n["e"], env) if n.get("e") else None)
        if k == "decl":
            for v in n.get("v", []):
                if s.T[v["t"]]["k"] in ("ref", "rref"):
                    l = s.lval(v["init"], env)
                    env[v["d"]] = l if isinstance(l, Cell) else Cell(("alias", l), v["t"])
                else:
                    env[v["d"]] = Cell(s.val(v["init"], env) if v.get("init") else ("?",), v["t"])
            return None
        if k == "if":
            b = n.get("t") if s.decide(s.val(n["c"], env)) else n.get("f")
            return s.stmt(b, env) if b else None
        if k == "switch":
            return s.switch(n, env)
        if k in ("null", "static_assert"):
            return None
        if k in ("for", "while", "do", "try", "break", "throw"):
            raise Undecided("statement " + k)
        s.val(n, env)
        return None

    def switch(s, n, env):
        if n.get("init"):
            s.stmt(n["init"], env)
        v = s.val(n["c"], env)
        if v[0] != "k":
            raise Undecided("switch on a runtime value")
        flat = []

        def add(it):
            if it["k"] == "block":
                for b in it["b"]:
                    add(b)
            elif it["k"] in ("case", "default"):
                flat.append(it)
                if it.get("b"):
                    add(it["b"])
            else:
                flat.append(it)
        add(n["b"])
        start = None
        for i, it in enumerate(flat):
            if it["k"] == "case" and s.val(it["e"], env) == v:
                start = i
                break
        if start is None:
            for i, it in enumerate(flat):
                if it["k"] == "default":
                    start = i
        if start is None:
            return None
        for it in flat[start:]:
            if it["k"] in ("case", "default"):
                continue
            if it["k"] == "break":
                return None
            r = s.stmt(it, env)
            if r:
                return r
        return None

    def strip(s, n):
        while n["k"] in ("copy", "paren") or (n["k"] in ("ctor", "list") and len(n.get("a", [])) == 1):
            n = n["e"] if n["k"] in ("copy", "paren") else n["a"][0]
        return n

    def lval(s, n, env):
        """Cell, or ("*",ptr) or a value"""
        n = s.strip(n)
        k = n["k"]
        if k == "ref":
            c = env.get(n["d"])
            if c is None:
                return ("?",)
            if isinstance(c.v, tuple) and c.v and c.v[0] == "alias":
                return c.v[1]
            return c
        if k == "un" and n["op"] == "*":
            p = s.val(n["e"], env)
            if p[0] == "&":
                return p[1]
            return ("*", p)
        if k == "idx":
            p, i = s.val(n["b"], env), s.val(n["i"], env)
            if i == ("k", 0):
                return p[1] if p[0] == "&" else ("*", p)
        if k == "cast" and n.get("ck") in ("LValueBitCast", "NoOp"):
            return s.lval(n["e"], env)
        return s.val(n, env)

    def rd(s, l):
        return l.v if isinstance(l, Cell) else l

    def val(s, n, env):
        n = s.strip(n)
        k = n["k"]
        if k == "c":
            try:
                return ("k", int(n["v"]))
            except (ValueError, KeyError, TypeError):
                return ("?",)
        if k == "ref" or (k == "un" and n["op"] == "*") or k == "idx":
            return s.rd(s.lval(n, env))
        if k == "un" and n["op"] == "&":
            l = s.lval(n["e"], env)
            if isinstance(l, Cell):
                return ("&", l)
            if l[0] == "*":
                return l[1]
            return ("?",)
        if k == "un" and n["op"] in ("!", "-", "+"):
            v = s.val(n["e"], env)
            if v[0] == "k":
                return ("k", {"!": int(not v[1]), "-": -v[1], "+": v[1]}[n["op"]])
            if n["op"] == "+":
                return v
            return ("op", n["op"], v)
        if k == "cast":
            if n.get("ck") == "LValueBitCast":
                return s.rd(s.lval(n["e"], env))
            v = s.val(n["e"], env)
            if v[0] == "p" and n.get("ck") in ("IntegralCast", "FloatingCast", "IntegralToFloating",
                                               "FloatingToIntegral"):
                return ("p", v[1], v[2] + ((n["ck"], n["t"]),))
            return v
        if k == "cond":
            return s.val(n["a"] if s.decide(s.val(n["c"], env)) else n["b"], env)
        if k == "bin":
            op = n["op"]
            if op in ("=",):
                l = s.lval(n["a"], env)
                v = s.val(n["b"], env)
                if isinstance(l, Cell):
                    l.v = v
                    return v
                raise Undecided("store through a pointer")
            if op == ",":
                s.val(n["a"], env)
                return s.val(n["b"], env)
            a = s.val(n["a"], env)
            if op in ("&&", "||") and a[0] == "k":
                if bool(a[1]) == (op == "||"):
                    return ("k", int(bool(a[1])))
                return s.val(n["b"], env)
            if op in ("&&", "||"):
                if s.decide(a) == (op == "||"):
                    return ("k", int(op == "||"))
                return ("k", int(s.decide(s.val(n["b"], env))))
            b = s.val(n["b"], env)
            if a[0] == "k" and b[0] == "k":
                x, y = a[1], b[1]
                f = {"==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y),
                     ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                     "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "&&": lambda: int(bool(x and y)), "||": lambda: int(bool(x or y))}.get(op)
                if f:
                    return ("k", f())
            return ("op", op, a, b)
        if k == "call":
            return s.call(n, env)
        if k in ("ctor", "list") and n.get("a"):
            return ("op", "ctor") + tuple(s.val(a, env) for a in n["a"])
        return ("?",)

    def call(s, n, env):
        f = s.F.get(n.get("f"))
        argn = n.get("a", [])
        if f is not None and n.get("m"):
            if not (s.files[f["file"]].startswith(s.main) and len(argn) == len(f["params"]) + 1):
                f = None
            argn = argn[1:]
        if f is None:
            s.opaque = True
            for a in n.get("a", []):
                s.val(a, env)
            return ("?",)
        lv = []
        for p, a in zip(f["params"], argn):
            if s.T[p["t"]]["k"] in ("ref", "rref"):
                l = s.lval(a, env)
                lv.append(l)
            else:
                lv.append(Cell(s.val(a, env), p["t"]))
        fn = s.files[f["file"]]
        inwrap = fn.startswith(s.main)
        if not inwrap:
            s.calls.append((f, [s.rd(l) for l in lv], n.get("l")))
            return ("res", len(s.calls) - 1)
        if not f.get("body"):
            raise Undecided("no body for " + f["name"])
        return s.fn(f, [l if isinstance(l, Cell) else Cell(("alias", l) if l[0] == "*" else l, p["t"])
                        for l, p in zip(lv, f["params"])])


def kindbits(T, t):
    r = T[t]
    k = r["k"]
    if k in ("int", "enum", "bool"):
        return ("int", r.get("bits", 64))
    return (norm(r.get("s", "")), None)


def scalar(T, t):
    """('ptr'|'val', scalar name) of a parameter type"""
    r = T[t]
    if r["k"] in ("ref", "rref"):
        return "ref", norm(T[r["e"]].get("s", ""))
    if r["k"] == "ptr":
        return "ptr", norm(T[r["e"]].get("s", ""))
    if r["k"] in ("int", "bool"):
        return "val", "int%d" % r.get("bits", 64)
    return "val", norm(r.get("s", ""))


def check_wrappers(ck, conf, D, enums, decls):
    """D: export; enums: C enum name -> {enumerator: value}; decls: C declarations"""
    src = os.path.realpath(REPO) + "/src/"
    pre = "cblas_" if conf == "cblas" else ""
    T = D["types"]
    E = Eval(D, src)
    defs = {f["name"]: f for f in D["fns"] if D["files"][f["file"]].startswith(src) and f.get("body")}
    nobl = 0
    entries = 0
    for nm, dc in sorted(decls.items()):
        f = defs.get(nm)
        where0 = "include/%s.h.in:%s (%s)" % ("tlapack_cblas" if pre else "tlapack", dc["line"], nm)
        base = nm[len(pre):] if nm.startswith(pre) else nm
        rt = split_name(base)
        if rt is None:
            ck.cov.setdefault("not_recognised", []).append(nm)
            continue
        entries += 1
        if f is None:
            ck.violation("declared-not-defined", where0, "%s is declared but src/tlapack_cwrappers.cpp defines no "
                         "such function in the %s configuration" % (nm, conf), key=nm)
            continue
        routine, let = rt
        where = "%s:%d (%s)" % (rel(D["files"][f["file"]]), f["line"], nm)
        # order of the names in declaration and definition
        a, b = [p["n"] for p in f["params"]], [p["n"] for p in dc["params"]]
        nobl += 1
        if all(a) and all(b) and a != b and sorted(a) == sorted(b):
            ck.violation("parameter-order", where, "declared as (%s) but defined as (%s)"
                         % (", ".join(b), ", ".join(a)), key=nm)
        # types of the declaration against those of the definition (text, C view)
        doms = []
        for p in f["params"]:
            r = T[p["t"]]
            cn = r.get("name", "").split("::")[-1] if r["k"] == "enum" else None
            if cn and not r.get("name", "").startswith("tlapack::"):
                if cn not in enums or cn not in CNAME:
                    raise Broken("enumeration %s of %s not found in the C header" % (cn, nm))
                doms.append([(e, v) for e, v in sorted(enums[cn].items()) if (pre == "" or e in CBLASVAL)])
            else:
                doms.append([None])
        bad = set()

        def alarm(rule, msg):
            if (rule, msg) not in bad:
                bad.add((rule, msg))
                ck.violation(rule, where, msg, key=nm)
        for comb in itertools.product(*doms):
            args = [("k", c[1]) if c else ("p", i, ()) for i, c in enumerate(comb)]
            case = ", ".join("%s=%s" % (p["n"], c[0]) for p, c in zip(f["params"], comb) if c)
            ctx = "%s%s" % (nm, "(" + case + ")" if case else "")
            try:
                paths = E.paths(f, args)
            except (Undecided, KeyError, RecursionError) as e:
                ck.cov.setdefault("undecided", []).append("%s: %s" % (ctx, e))
                break
            for path in paths:
                nobl += one_path(ck, alarm, T, f, nm, comb, ctx, path, routine, let)
    return entries, nobl


def holds(facts, i, k):
    """the path's branches say parameter i equals k"""
    for c, b in facts:
        if c[0] == "op" and len(c) == 4 and c[1] == ("==" if b else "!="):
            x, y = c[2], c[3]
            for x, y in ((x, y), (y, x)):
                if x[0] == "p" and x[1] == i and y == k:
                    return True
    return False


def one_path(ck, alarm, T, f, nm, comb, ctx, path, routine, let):
    ret, ecalls, facts, opaque = path
    nobl = 0
    if facts:
        ctx += " on the path where " + ", ".join("condition %d is %s" % (i + 1, b) for i, (_, b) in enumerate(facts))
    args = f["params"]
    calls = [c for c in ecalls if c[0]["name"].split("::")[-1] in ROUTINES]
    nobl += 1
    if opaque:
        # a branch or a call the evaluation does not resolve
        ck.cov.setdefault("undecided", []).append("%s: not resolved" % ctx)
        return nobl
    if len(calls) != 1:
        if not calls and (ecalls or facts):
            ck.cov.setdefault("undecided", []).append("%s: calls no routine of the bindings" % ctx)
            return nobl
        alarm("not-forwarded", "%s makes %d calls of a tlapack routine, one expected" % (ctx, len(calls)))
        return nobl
    g, vals, line = calls[0]
    gname = g["name"].split("::")[-1]
    if gname != routine:
        alarm("wrong-routine", "%s calls %s, the routine of its name is %s" % (ctx, gname, routine))
        return nobl
    if len(vals) != len(args):
        # trailing defaulted arguments or another overload: not the documented forwarding
        alarm("wrong-arguments", "%s has %d parameters but forwards %d arguments" % (ctx, len(args), len(vals)))
        return nobl
    # scalar type of the name
    els = [scalar(T, p["t"]) for p in g["params"]]
    for (kd, sc), p in zip(els, g["params"]):
        if kd in ("ptr", "ref") and ("float" in sc or "double" in sc):
            nobl += 1
            real = SCAL[let].replace("std::complex<", "").replace(">", "")
            if sc not in (SCAL[let], real):
                alarm("scalar-type", "%s calls %s with parameter %s of element type %s, its name says %s"
                      % (ctx, gname, p["n"], sc, SCAL[let]))
    for i, (v, gp, wp) in enumerate(zip(vals, g["params"], f["params"])):
        nobl += 1
        gk, gs = els[i]
        wk, ws = scalar(T, wp["t"])
        pos = "argument %d (%s) of %s" % (i + 1, gp["n"], gname)
        if comb[i]:
            en = CNAME[T[wp["t"]].get("name", "").split("::")[-1]]
            if gs != en:
                alarm("wrong-parameter", "%s: %s is a %s, the wrapper's parameter there is %s"
                      % (ctx, pos, gs, T[wp["t"]]["s"]))
                continue
            short = comb[i][0].replace("Cblas", "")
            exp = CXX[en].get(short)
            if exp is None:
                continue
            got = chr(v[1]) if v[0] == "k" and 0 < v[1] < 256 else str(v[1] if v[0] == "k" else v[0])
            if v[0] in ("?", "op", "res"):
                ck.cov.setdefault("undecided", []).append("%s: %s not resolved" % (ctx, pos))
            elif got != exp:
                alarm("enumeration-value", "%s=%s of %s reaches %s as '%s', not as %s '%s'"
                      % (wp["n"], comb[i][0], nm, gname, got, short, exp))
            continue
        obj = v
        if holds(facts, i, v):
            continue
        if v[0] == "op" and v[1] == "ctor" and v[2][0] == "p" and wk == "val" \
                and gs == "std::complex<%s>" % ws and all(x in (("k", 0), ("?",)) for x in v[3:]):
            if v[2][1] == i:
                continue        # a real value embedded in the complex type
            obj = v[2]
        if gk == "ref" and v[0] == "*":
            obj = v[1]
        if obj[0] == "p" and obj[1] == i:
            # conversions on the way
            for ckd, t in obj[2]:
                kb, gb = kindbits(T, t), kindbits(T, wp["t"])
                if ckd == "IntegralCast" and kb[0] == "int" and gb[0] == "int" and kb[1] < gb[1]:
                    alarm("narrowed", "%s narrows %s to %d bits before forwarding it" % (ctx, wp["n"], kb[1]))
                if ckd in ("FloatingCast", "FloatingToIntegral", "IntegralToFloating") and kb != gb:
                    if not (kb[0] == "double" and gb[0] == "float"):
                        alarm("narrowed", "%s converts %s to %s before forwarding it" % (ctx, wp["n"], kb[0]))
            if gk in ("ptr", "ref") and wk == "ptr":
                if gs != ws:
                    alarm("scalar-type", "%s: %s points to %s, the wrapper's %s to %s"
                          % (ctx, pos, gs, wp["n"], ws))
            elif gk == "ref" and wk != "ptr" or gk == "val":
                if ("float" in gs or "double" in gs or "float" in ws or "double" in ws) and gs != ws:
                    alarm("scalar-type", "%s: %s has type %s, the wrapper's %s has %s"
                          % (ctx, pos, gs, wp["n"], ws))
            continue
        who = None
        if obj[0] == "p":
            who = "parameter " + f["params"][obj[1]]["n"]
        elif obj[0] == "k" and comb and any(c and c[1] == obj[1] for c in comb):
            who = "an enumeration argument"
        elif obj[0] == "k":
            who = "the constant %s" % obj[1]
        elif obj[0] == "op":
            who = "an expression of its parameters"
        if who is None:
            ck.cov.setdefault("undecided", []).append("%s: %s not resolved (%s)" % (ctx, pos, obj[0]))
        else:
            alarm("wrong-parameter", "%s: %s receives %s, not %s" % (ctx, pos, who, wp["n"]))
    # result
    nobl += 1
    gr, fr = T[g["ret"]], T[f["ret"]]
    if norm(gr.get("s", "")) != "void":
        if norm(fr.get("s", "")) == "void":
            alarm("result", "%s drops the result of %s" % (ctx, gname))
        elif ret != ("res", ecalls.index(calls[0])):
            if ret is None or ret[0] in ("?",):
                ck.cov.setdefault("undecided", []).append("%s: result not resolved" % ctx)
            else:
                alarm("result", "%s does not return the result of %s" % (ctx, gname))
        else:
            x, y = scalar(T, g["ret"])[1], scalar(T, f["ret"])[1]
            if x != y and not (x.startswith("int") and y.startswith("int")):
                alarm("result", "%s returns %s, the result of %s is %s" % (ctx, y, gname, x))
    return nobl


# ---------------------------------------------------------------- C headers
def c_header(path, defs, td, nm):
    s = open(path).read()
    s, n = re.subn(r"@TLAPACK_(?:CBLAS_)?DEFINES@", defs.replace("\\", "\\\\"), s)
    out = os.path.join(td, nm)
    with open(out, "w") as f:
        f.write(s)
    c = os.path.join(td, nm + ".c")
    with open(c, "w") as f:
        f.write('#include "%s"\n' % nm)
    r = subprocess.run(["/usr/bin/clang-18", "-x", "c", "-std=c11", "-fsyntax-only", "-Xclang", "-ast-dump=json",
                "-I" + td, c], capture_output=True, text=True)
    if r.returncode != 0:
        e = first_error(r.stderr) or (nm, 0, r.stderr[-300:])
        return None, None, "%s:%s: %s" % (os.path.basename(e[0]), e[1], e[2])
    J = json.loads(r.stdout)
    enums, decls = {}, {}
    cur = [None, 0]

    def locs(n):
        l = n.get("loc", {})
        l = l.get("expansionLoc", l)
        if "file" in l:
            cur[0] = l["file"]
        if "line" in l:
            cur[1] = l["line"]
        return cur[0], cur[1]

    def intval(n):
        if "value" in n and n.get("kind") in ("ConstantExpr", "IntegerLiteral", "CharacterLiteral"):
            return int(n["value"])
        for c in n.get("inner", []):
            v = intval(c)
            if v is not None:
                return v
        return None
    for n in J["inner"]:
        f, l = locs(n)
        own = f and f.endswith("/" + nm)
        if n["kind"] == "EnumDecl" and own:
            d, nxt = {}, 0
            for c in n.get("inner", []):
                if c["kind"] != "EnumConstantDecl":
                    continue
                v = intval(c)
                v = nxt if v is None else v
                d[c["name"]] = v
                nxt = v + 1
            enums[n["name"]] = d
        elif n["kind"] == "FunctionDecl" and own:
            decls[n["name"]] = {"line": l, "type": n["type"]["qualType"], "params":
                        [{"n": c.get("name", ""),
                          "t": c["type"].get("desugaredQualType", c["type"]["qualType"])}
                         for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"],
                        "ret": n["type"]["qualType"].split("(")[0].strip()}
    return enums, decls, None


# ---------------------------------------------------------------- Fortran
def fortran(td):
    """interface prototypes (C view), module procedures and their calls"""
    for a, b in (("src/base/constants.f90.in", "constants.f90"), ("src/tlapack.fi.in", "tlapack.fi")):
        s = open(os.path.join(REPO, a)).read()
        s = s.replace("@FTLAPACK_INT_T@", "c_int64_t").replace("@FTLAPACK_SIZE_T@", "c_size_t")
        with open(os.path.join(td, b), "w") as f:
            f.write(s)
    shutil.copy(os.path.join(REPO, "src/tlapack.f90"), os.path.join(td, "tlapack.f90"))

    def gf(*a):
        r = subprocess.run(["gfortran", "-fsyntax-only", "-I."] + list(a), cwd=td, capture_output=True, text=True)
        return r
    r = gf("constants.f90")
    if r.returncode:
        return None, "constants.f90.in: " + r.stderr[-300:]
    r1 = gf("-fc-prototypes", "tlapack.f90")
    r2 = gf("-fdump-parse-tree", "tlapack.f90")
    if r1.returncode or r2.returncode:
        return None, "tlapack.f90/tlapack.fi.in: " + (r1.stderr or r2.stderr)[-400:]
    protos = {}
    for m in re.finditer(r"^([\w ]+?)\s*(\**)\s*(\w+) \((.*)\);$", r1.stdout, re.M):
        ps = []
        for p in m.group(4).split(", "):
            q = re.match(r"(.*?)\s*(\**)(\w+)$", p)
            if q and p != "void":
                ps.append((q.group(1).strip() + q.group(2), q.group(3)))
        protos[m.group(3)] = (m.group(1), ps)
    tree = r2.stdout
    label = dict(re.findall(r"symbol: '(\w+)'\s*\|\| binding_label: '(\w+)'", tree))
    procs = {}
    for part in re.split(r"^CONTAINS$", tree, flags=re.M)[1:]:
        m = re.search(r"procedure name = (\w+)", part)
        if not m:
            continue
        nm = m.group(1)
        syms = {}
        for q in re.finditer(r"symbol: '(\w+)'\s*\n\s*type spec : \(([^\n]*)\)\n\s*attributes: \(([^\n]*)\)"
                     r"((?:\n\s+(?:Formal|Array|result|value)[^\n]*)*)", part):
            syms[q.group(1)] = (q.group(2), q.group(3), q.group(4))
        fm = re.search(r"symbol: '%s'\s*(?:\|\|[^\n]*)?\n(?:[^\n]*\n){0,3}?\s*Formal arglist: ([\w ]+)" % nm, part)
        if not fm:
            fm = re.search(r"symbol: '%s'\s*(?:\|\|[^\n]*)?\n(?:[^\n]*\n){0,3}?\s*Formal arglist: ([\w ]+)" % nm, tree)
        code = part.split("code:")[1] if "code:" in part else ""
        procs[nm] = {"syms": syms, "formal": fm.group(1).split() if fm else [], "code":
             [l.strip() for l in code.split("\n") if l.strip()]}
    return {"protos": protos, "label": label, "procs": procs, "tree": tree}, None


def balanced(s):
    """arguments of a dumped call: '(a) (b[(..)])' -> list"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
            if d == 1:
                cur = ""
                continue
        if ch == ")":
            d -= 1
            if d == 0:
                out.append(cur)
                continue
        if d >= 1:
            cur += ch
    return out


FKIND = {("REAL", "4"): "float", ("REAL", "8"): "double", ("COMPLEX", "4"): "std::complex<float>",
 ("COMPLEX", "8"): "std::complex<double>", ("INTEGER", "8"): "int64", ("INTEGER", "4"): "int32",
 ("CHARACTER", "1"): "char"}


def canon_c(t):
    """type of a C declaration -> ptr / scalar kind"""
    t = t.strip()
    if t.endswith("*"):
        return "ptr"
    t = norm(t)
    if t in ("unsigned long", "size_t", "long", "int64_t", "long long", "unsigned long long", "uint64_t",
     "TLAPACK_SIZE_T", "TLAPACK_INT_T"):
        return "int64"
    if t in ("int", "unsigned int", "int32_t"):
        return "int32"
    if t in CNAME or t.split()[-1] in CNAME:
        return "enum"
    return t


def canon_f(t):
    if t.endswith("*"):
        return "ptr"
    t = {"__GFORTRAN_FLOAT_COMPLEX": "std::complex<float>", "__GFORTRAN_DOUBLE_COMPLEX": "std::complex<double>"}.get(t, t)
    if t in ("long", "unsigned long", "size_t", "int64_t", "long long"):
        return "int64"
    return t


def check_fortran(ck, F, decls):
    n = 0
    for nm, (ret, ps) in sorted(F["protos"].items()):
        if nm in F["procs"] and nm not in F["label"].values():
            continue
        where = "src/tlapack.fi.in (bind(C, name=\"%s\"))" % nm
        d = decls.get(nm)
        n += 1
        if d is None:
            ck.violation("fortran-undeclared", where, "the interface binds to %s, which the C header does not declare"
                 % nm, key=nm)
            continue
        if len(ps) != len(d["params"]):
            ck.violation("fortran-arity", where, "%d parameters in Fortran, %d in C" % (len(ps), len(d["params"])), key=nm)
            continue
        fo, co = [p[1].lower() for p in ps], [p["n"].lower() for p in d["params"]]
        if fo != co and sorted(fo) == sorted(co):
            ck.violation("parameter-order", where, "Fortran declares (%s), C declares (%s)" % (", ".join(fo), ", ".join(co)),
                 key=nm)
        for (ft, fnm), cp in zip(ps, d["params"]):
            n += 1
            a, b = canon_f(ft), canon_c(cp["t"])
            if not (a == b or (b == "enum" and a in ("char", "int32", "int"))):
                ck.violation("fortran-type", where, "parameter %s is %s in Fortran but %s (%s) in C" % (fnm, ft, cp["n"], cp["t"]),
                     key=nm)
        n += 1
        a, b = canon_f(ret), canon_c(d["ret"])
        if a != b:
            ck.violation("fortran-type", where, "result is %s in Fortran, %s in C" % (ret, d["ret"]), key=nm)
    for nm, p in sorted(F["procs"].items()):
        where = "src/tlapack.f90 (%s)" % nm
        sp = split_name(nm)
        calls = []
        alias = {}
        odd = False
        for l in p["code"]:
            m = re.match(r"ASSIGN \w+:(\w+) \w+:(\w+)$", l)
            if m:
                alias[m.group(1)] = alias.get(m.group(2), m.group(2))
                continue
            m = re.match(r"CALL (\w+) \((.*)\)$", l)
            if m:
                calls.append((m.group(1), balanced(m.group(2)), None))
                continue
            m = re.match(r"ASSIGN \w+:(\w+) (\w+)\[\[?\((.*?)\)\]?\]$", l)
            if m:
                calls.append((m.group(2), balanced(m.group(3)), m.group(1)))
                continue
            odd = True
        if odd or not calls:
            ck.cov.setdefault("undecided", []).append("Fortran %s: statements not resolved" % nm)
            continue
        n += 1
        if len(calls) != 1:
            ck.violation("not-forwarded", where, "%d calls, one expected" % len(calls), key=nm)
            continue
        g, args, res = calls[0]
        bound = F["label"].get(g)
        if bound is None:
            ck.cov.setdefault("undecided", []).append("Fortran %s calls %s" % (nm, g))
            continue
        if bound != nm:
            ck.violation("wrong-routine", where, "%s calls the C routine %s" % (nm, bound), key=nm)
            continue
        if len(args) != len(p["formal"]):
            ck.violation("fortran-arity", where, "%d parameters, %d arguments forwarded" % (len(p["formal"]), len(args)), key=nm)
            continue
        for i, (a, f) in enumerate(zip(args, p["formal"])):
            n += 1
            m = re.search(r"^(?:c_loc\[\(\()?\w+:(\w+)(?:\(FULL\)\)\)\])?$", a)
            if not m:
                ck.cov.setdefault("undecided", []).append("Fortran %s: argument %d is %s" % (nm, i + 1, a))
                continue
            got = alias.get(m.group(1), m.group(1))
            if got != f:
                ck.violation("wrong-parameter", where, "argument %d of %s receives %s, not %s" % (i + 1, g, got, f), key=nm)
            if a.startswith("c_loc") and sp:
                q = re.match(r"(\w+) (\d+)", p["syms"].get(f, ("",))[0])
                sc = FKIND.get(q.groups()) if q else None
                if sc and sc not in (SCAL[sp[1]], SCAL[sp[1]].replace("std::complex<", "").replace(">", "")) \
                or sc and sc != SCAL[sp[1]] and sp[0] not in ("rot", "rotg"):
                    ck.violation("scalar-type", where, "array %s has element type %s, the name says %s"
                         % (f, sc, SCAL[sp[1]]), key=nm)
        d = decls.get(nm)
        if d:
            fo, co = p["formal"], [x["n"].lower() for x in d["params"]]
            if fo != co and sorted(fo) == sorted(co):
                ck.violation("parameter-order", where, "Fortran declares (%s), C declares (%s)"
                     % (", ".join(fo), ", ".join(co)), key=nm)
    return n


def run(ck):
    td = tempfile.mkdtemp(dir=tmpdir())
    H = {}
    for conf, fn, nm, defs in (("c", "include/tlapack.h.in", "tlapack.h",
                        "#define TLAPACK_SIZE_T size_t\n#define TLAPACK_INT_T int64_t\n"),
                       ("cblas", "include/tlapack_cblas.h.in", "tlapack_cblas.h",
                        "#include <stdint.h>\n#define CBLAS_INT int64_t\n")):
        en, de, err = c_header(os.path.join(REPO, fn), defs, td, nm)
        if err:
            ck.violation("header-not-c", fn, "the header is not valid C: " + err, key=fn)
            continue
        H[conf] = (en, de)
    if len(H) < 2:
        return
    fl = ["-std=c++17", "-DNDEBUG", "-I" + REPO + "/include", "-I" + td, "-w"]
    ex = exporter()

    def one(conf):
        out = os.path.join(td, conf + ".json")
        cmd = [ex, "--root", os.path.realpath(REPO) + "/include", "--root", os.path.realpath(REPO) + "/src", "--root", td,
       "--main", os.path.realpath(REPO) + "/src", "--out", out, REPO + "/src/tlapack_cwrappers.cpp", "--"] + fl
        if conf == "cblas":
            cmd.append("-DBUILD_CBLAS")
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise CompileError((r.stdout + r.stderr)[-6000:])
        return json.load(open(out))
    ent = obl = 0
    # enumeration values
    for conf, (en, de) in H.items():
        for cn, d in sorted(en.items()):
            if cn not in CNAME:
                continue
            for e, v in sorted(d.items()):
                obl += 1
                if conf == "cblas":
                    if e in CBLASVAL and CBLASVAL[e] != v:
                        ck.violation("enumeration-value", "include/tlapack_cblas.h.in (%s)" % e,
                             "%s is %d, the CBLAS interface fixes %d" % (e, v, CBLASVAL[e]), key=e)
                else:
                    x = CXX[CNAME[cn]].get(e)
                    if x and ord(x) != v:
                        ck.violation("enumeration-value", "include/tlapack.h.in (%s::%s)" % (cn, e),
                             "%s is '%s', the other languages use '%s'" % (e, chr(v) if 31 < v < 127 else v, x), key=cn + e)
    try:
        with ThreadPoolExecutor(2) as p:
            Ds = list(p.map(one, ("c", "cblas")))
    except CompileError as e:
        w = first_error(str(e))
        ck.violation("wrappers-do-not-compile", "%s:%s" % (rel(w[0]), w[1]) if w else "src/tlapack_cwrappers.cpp",
             w[2] if w else str(e)[-300:])
        return
    per = {}
    for conf, D in zip(("c", "cblas"), Ds):
        a, b = check_wrappers(ck, conf, D, *H[conf])
        per[conf] = a
        ent += a
        obl += b
    # the two headers against each other: same routines, same parameter names and types
    en, de = H["c"]
    en2, de2 = H["cblas"]
    for nm, d in sorted(de.items()):
        d2 = de2.get("cblas_" + nm)
        if d2 is None or split_name(nm) is None:
            continue
        a, b = [x["n"] for x in d["params"]], [x["n"] for x in d2["params"]]
        obl += 1
        if a != b and sorted(a) == sorted(b):
            ck.violation("parameter-order", "include/tlapack_cblas.h.in:%d (cblas_%s)" % (d2["line"], nm),
                 "tlapack.h declares (%s), tlapack_cblas.h (%s)" % (", ".join(a), ", ".join(b)), key=nm)
        if len(a) == len(b):
            for x, y in zip(d["params"], d2["params"]):
                obl += 1
                p, q = canon_c(x["t"]), canon_c(y["t"])
                p2, q2 = norm(x["t"]), norm(y["t"])
                isint = lambda z: z.startswith("int")
                if p != q and not (isint(p) and isint(q)) or (p == q == "ptr" and p2 != q2):
                    ck.violation("types-differ", "include/tlapack_cblas.h.in:%d (cblas_%s)" % (d2["line"], nm),
                         "parameter %s is %s in tlapack.h, %s in tlapack_cblas.h" % (x["n"], x["t"], y["t"]), key=nm)
        else:
            ck.violation("types-differ", "include/tlapack_cblas.h.in:%d (cblas_%s)" % (d2["line"], nm),
                 "tlapack.h declares %d parameters, tlapack_cblas.h %d" % (len(a), len(b)), key=nm)
    F, err = fortran(td)
    if err:
        ck.violation("fortran-does-not-compile", "src", err)
        return
    nf = check_fortran(ck, F, de)
    ck.cov.update({"entry_points": per, "fortran_interfaces": len(F["label"]), "fortran_procedures": len(F["procs"]),
           "obligations": obl + nf, "rule": RULE,
           "undecided_count": len(ck.cov.get("undecided", []))})
    ck.assume += ["the integer types of the bindings are configured with the repository's defaults (int64_t, size_t)",
          "character(c_char) passed by value to a C enumeration parameter is accepted as interoperable: "
          "gfortran passes it zero-extended on this ABI",
          "std::complex<T> and T _Complex have the same representation"]
    ck.floor("C entry points", per["c"], 80)
    ck.floor("CBLAS entry points", per["cblas"], 80)
