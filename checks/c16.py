"""C16 no hidden state: no mutable object with static storage is defined by the
library headers or touched by any function reachable from a public routine, and
the only callees outside the library are functions without state."""
import json, re
from common import *

LEVEL = "other"
# callees outside /repo that are functions of their arguments only (plus the
# objects passed to them); text output to a stream is not part of the result.
PURE = re.compile(
    r"^(std::(abs|sqrt|conj|real|imag|norm|arg|polar|isnan|isinf|isfinite|min|max|clamp|pow|log|log2|log10|exp|ceil|floor|round|trunc|fabs|copysign|hypot|fma|fmod|ldexp|frexp|scalbn|ilogb|logb|signbit|sin|cos|tan|asin|acos|atan|atan2|atan|sinh|cosh|tanh|cbrt|"
    r"swap|move|forward|make_pair|make_tuple|tie|get|to_string|fill|fill_n|copy|copy_n|sort|stable_sort|iota|accumulate|transform|find|find_if|distance|advance|next|prev|reverse|rotate|exchange|addressof|data|size|begin|end|cbegin|cend|empty|max_element|min_element|all_of|any_of|none_of|generate|declval|lower_bound|upper_bound|equal|count|count_if|for_each|bit_width|countl_zero|has_single_bit|midpoint|lerp|fdim|fmin|fmax|remainder|nearbyint|rint|lround|llround|nextafter|div|invoke|apply|"
    r"operator[-+*/=<>!&|^%]+|numeric_limits<.*>::\w+|complex<.*>::.*|vector<.*>::.*|__cxx11::basic_string<.*>::.*|basic_string<.*>::.*|span<.*>::.*|array<.*>::.*|pair<.*>::.*|tuple<.*>::.*|optional<.*>::.*|function<.*>::.*|initializer_list<.*>::.*|unique_ptr<.*>::.*|make_unique|mersenne_twister_engine<.*>::.*|normal_distribution<.*>::.*|uniform_\w+_distribution<.*>::.*|bernoulli_distribution::.*|"
    r"(domain_error|runtime_error|invalid_argument|logic_error|out_of_range|exception|bad_alloc|length_error)::.*)"
    r"|__gnu_cxx::.*|(::)?(abs|fabs|sqrt|ceil|floor|pow|log|log2|exp|isnan|isinf|copysign|frexp|ldexp|memcpy|memset|memmove|hypot|fabsf|sqrtf|fabsl|sqrtl|__builtin_\w+|fmin|fmax|llabs|labs|atan|cos|sin)|operator (new|delete)(\[\])?)$")
TEXT = re.compile(r"^std::(basic_ostream<.*>::(operator<<|put|flush)|operator<<|endl|flush|basic_ostringstream<.*|basic_stringstream<.*|ios_base::~?ios_base)")
CONSTREAM = {"cout", "cerr", "clog"}


def reseeded(d, fn):
    """lines of declarations of generators that are seeded again from the
    arguments before anything is drawn from them"""
    ok = set()

    def uses(x, did):
        hit = []
        walk(x, lambda n, p: hit.append(n) if n["k"] == "ref" and n["d"] == did else None)
        return bool(hit)

    def blk(n, par):
        if n["k"] != "block":
            return True
        b = n["b"]
        for i, s in enumerate(b):
            if s["k"] != "decl":
                continue
            for v in s["v"]:
                if not v.get("init") or "d" not in v:
                    continue
                for t in b[i + 1:]:
                    if uses(t, v["d"]):
                        e = t.get("e") if t["k"] == "expr" else None
                        if e and e["k"] == "call" and e.get("m") and "f" in e and d["fns"][e["f"]]["n"] == "seed" and e["a"][0]["k"] == "ref" and e["a"][0]["d"] == v["d"] and len(e["a"]) > 1:
                            ln = []
                            walk(v["init"], lambda n, p: ln.append(n.get("l")) if n["k"] == "call" else None)
                            ok.update(ln)
                        break
        return True
    walk(fn.get("body"), blk)
    return ok


def scan(ck, path, stats):
    d = load(path)
    files = d["files"]
    for g in d["gvars"]:
        f = files[g["file"]]
        if is_driver(f):
            continue
        stats["vars"].add((f, g["line"], g["n"]))
        if not g["const"]:
            what = "static local" if g["local"] else ("thread-local" if g["tls"] else "namespace or class scope")
            ck.violation("mutable-static", "%s:%d (%s)" % (rel(f), g["line"], g["n"]),
                         "mutable variable '%s' of type %s with static storage (%s) survives the call" % (g["n"], g["t"], what))
        elif g["local"] and g["dyn"]:
            ck.violation("frozen-static", "%s:%d (%s)" % (rel(f), g["line"], g["n"]),
                         "static local '%s' keeps the value computed from the arguments of the first call" % g["n"])
    for g in d["mutfields"]:
        f = files[g["file"]]
        if not is_driver(f):
            ck.violation("mutable-field", "%s:%d (%s)" % (rel(f), g["line"], g["n"]), "mutable data member: a const argument can carry state between calls")
    # call graph from driver functions
    fns = d["fns"]
    for fn in fns:
        if not fn or not fn.get("root"):
            continue
        f = files[fn["file"]]
        if is_driver(f):
            continue
        stats["fns"].add((f, fn["line"], fn["name"]))

        def visit(n, par):
            k = n["k"]
            where = "%s:%s (%s)" % (rel(f), n.get("l", fn["line"]), fn["name"])
            if k == "ref" and n.get("g") and not n.get("gc"):
                stats["grefs"] += 1
                ok = n["n"] in CONSTREAM and par is not None and par["k"] == "call" and par.get("op") == "<<"
                if not ok:
                    ck.violation("global-access", where, "accesses the mutable object '%s'" % n["n"])
            elif k == "ref" and n.get("sl"):
                ty = d["types"][n["t"]]
                if not ty.get("const"):
                    ck.violation("static-local", where, "uses the mutable static local '%s'" % n["n"])
            elif k == "call" and "f" in n:
                g = fns[n["f"]]
                stats["calls"] += 1
                if not g.get("root"):
                    nm = re.sub(r"^::", "", g["name"])
                    nm = re.sub(r"\b(__cxx11|__1|_V2|__detail)::", "", nm)
                    stats["ext"].add(nm)
                    if nm.startswith("std::random_device::") or nm.startswith("random_device::"):
                        if "operator()" in nm and n["l"] not in reseeded(d, fn):
                            ck.violation("external-state", where, "draws from std::random_device, so repeating the call gives another result")
                        return True
                    if not PURE.match(nm) and not TEXT.match(nm):
                        # constructors and methods of value types created here are fine
                        ck.violation("external-state", where, "calls '%s', which is not known to depend on its arguments only" % g["name"], key=g["name"])
                    if TEXT.match(nm):
                        for a in n["a"]:
                            # stream manipulators change the stream's state
                            def mv(x, p):
                                if x["k"] == "fn" and fns[x["f"]]["name"] not in ("std::endl", "std::flush", "std::endl<char, std::char_traits<char>>"):
                                    nm2 = fns[x["f"]]["name"]
                                    if not nm2.startswith(("std::endl", "std::flush", "std::ends")):
                                        ck.violation("stream-state", where, "changes the state of a shared stream through '%s'" % nm2)
                                if x["k"] == "call" and "f" in x:
                                    nm2 = fns[x["f"]]["name"]
                                    if re.match(r"std::(setprecision|setw|setfill|setbase|setiosflags|resetiosflags)$", nm2):
                                        ck.violation("stream-state", where, "changes the state of a shared stream through '%s'" % nm2)
                            walk(a, mv, n)
            return True
        walk(fn.get("body"), visit)
        for i in fn.get("inits", []):
            walk(i.get("e"), visit)


def run(ck):
    stats = {"vars": set(), "fns": set(), "grefs": 0, "calls": 0, "ext": set()}
    specs = [dict(scalar="double"), dict(scalar="std::complex<double>")]
    specs += [dict(scalar="double", driver="legacy.cpp")]
    if TIER == "thorough":
        specs += [dict(scalar="float"), dict(scalar="std::complex<long double>"), dict(scalar="double", layout="RowMajor"), dict(scalar="std::complex<double>", layout="RowMajor")]
    for p in exports(specs):
        scan(ck, p, stats)
    ck.floor("functions", len(stats["fns"]), 350)
    ck.floor("variables", len(stats["vars"]), 30)
    ck.floor("calls", stats["calls"], 15000)
    ck.cov.update(explanation="effect analysis: every function of the library reachable from the drivers (one call per public routine) is scanned for accesses to mutable static storage, static locals, and calls leaving the library; every variable with static storage declared in the headers must be constant",
                  functions=len(stats["fns"]), static_variables=len(stats["vars"]), call_sites=stats["calls"], external_callees=sorted(stats["ext"])[:200], mutable_global_refs_allowed=stats["grefs"],
                  samples=[str(x) for x in sorted(stats["vars"])[:5]])
    ck.assume += ["text written to std::cout/cerr is not a result of a routine", "functions of the C++ standard library listed in checks/c16.py depend on their arguments only", "the user supplied callbacks and scalar types keep no state"]
