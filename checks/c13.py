"""C13 the library type-checks against minimal models of the documented
matrix, vector and scalar concepts (drivers/archetype.hpp), for several scalar
and index types; every routine of blas/ and lapack/ is instantiated."""
from common import *

LEVEL = "other"
NOTE = re.compile(r"^(\S+?):(\d+):\d+: note: in instantiation of (?:function template specialization|template class|member function) '([^']*)'", re.M)


def run(ck):
    thorough = TIER == "thorough"
    scal = ["double", "std::complex<double>", "arch::Real", "std::complex<arch::Real>"]
    if thorough:
        scal += ["float", "std::complex<float>", "long double"]
    idxs = ["std::size_t", "int", "long"] + (["unsigned", "std::int16_t"] if thorough else [])
    stds = ["c++17", "c++20"]
    drv = os.path.join(VERIF, "drivers", "all.cpp")
    jobs = []
    for s in scal:
        for i in idxs:
            for st in stds:
                if st == "c++20" and i != "std::size_t" and not thorough:
                    continue
                jobs.append((s, i, st))
    root = os.path.realpath(REPO) + "/include"

    def one(j):
        s, i, st = j
        cmd = [CLANG, "-fsyntax-only", "-std=" + st, "-DARCH", "-DARCH_IDX=" + i, "-w", "-DNDEBUG", "-DTLAPACK_CHECK_INPUT", "-ferror-limit=0",
               "-I" + root, "-I" + os.path.join(VERIF, "drivers"), "-DSCALAR=" + s, drv]
        if "complex" not in s:
            cmd.insert(1, "-DDRV_REAL")
        r = subprocess.run(cmd, capture_output=True, text=True)
        return j, r.returncode, r.stderr

    with ThreadPoolExecutor(8) as p:
        res = list(p.map(one, jobs))
    for (s, i, st), rc, err in res:
        if rc == 0:
            continue
        errs = re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
        if not errs:
            raise Broken("clang failed without a diagnosis: " + err[-500:])
        seen = set()
        parts = re.split(r"(?m)^(?=\S+?:\d+:\d+: (?:fatal )?error: )", err)[1:]
        for part in parts:
            m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", part)
            f, l, msg = m.groups()
            where = None
            if f.startswith(root):
                where = (f, l)
            chain = NOTE.findall(part)
            if not where:
                for nf, nl, nm in chain:
                    if nf.startswith(root):
                        where = (nf, nl)
                        break
            if not where:
                where = (f, l)
            inst = [c[2] for c in chain if "/drivers/" in c[0]]
            k = (where, msg)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 6:
                break
            ck.violation("needs-more-than-the-documented-interface", "%s:%s" % (rel(where[0]), where[1]),
                         "with scalar %s, index %s (%s) and the model array types: %s%s" % (s, i, st, msg, " (instantiating %s)" % inst[-1][:120] if inst else ""), key=rel(where[0]))
    # what was instantiated: one export with the archetype
    d = None
    if not ck.viol:
        fl = ["-std=c++17", "-DNDEBUG", "-DTLAPACK_CHECK_INPUT", "-I" + root, "-I" + os.path.join(VERIF, "drivers"), "-w", "-DARCH", "-DDRV_REAL", "-DSCALAR=double"]
        d1 = load(export("all.cpp", fl=fl))
        fl2 = [x for x in fl if x not in ("-DDRV_REAL", "-DSCALAR=double")] + ["-DSCALAR=std::complex<double>"]
        d2 = load(export("all.cpp", fl=fl2))
        inst = {}
        for d in (d1, d2):
            for t in d["templates"]:
                fn = rel(d["files"][t["file"]])
                if "/blas/" in fn or "/lapack/" in fn:
                    k = (fn, t["line"], t["n"])
                    inst[k] = inst.get(k, 0) + t["inst"]
        tot = len(inst)
        unin = ["%s:%d %s" % k for k, v in inst.items() if not v]
        ck.floor("templates of blas/ and lapack/", tot, 330)
        ck.floor("of them instantiated", tot - len(unin), 300)
        ck.cov.update(templates=tot, templates_not_instantiated=sorted(set(unin)), function_instances=len(d1["fns"]) + len(d2["fns"]))
    ck.cov.update(explanation="clang type-checks every routine instantiated with archetypes of the documented concepts: distinct non-assignable view types for blocks, rows, columns, diagonals and transposes, a non-builtin real scalar without conversions, signed and unsigned index types",
                  configurations=["%s/%s/%s" % j for j in jobs])
    ck.assume += ["drivers/archetype.hpp states the documented interface", "a construct that type-checks against a minimal model works with any conforming type"]
