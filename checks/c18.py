"""C18 headers stand alone: every public header is type-checked as the only
include after the plugin header, all headers together in both orders, and every
definition with external linkage in a header is inline, a template or constexpr."""
import glob
from common import *

LEVEL = "other"
_rel = rel
ROOT = None


def rel(path):
    if ROOT and path.startswith(ROOT + "/"):
        return "include/" + path[len(ROOT) + 1:]
    return _rel(path)


THIRD = re.compile(r"'([^']+)' file not found")


def groups():
    """header -> [(preprocessor conditions, driver line)] of drivers/routines.inc"""
    cur, g, st = None, {}, []
    for line in open(os.path.join(VERIF, "drivers", "routines.inc")):
        line = line.rstrip()
        m = re.match(r"// (\S+\.hpp)", line)
        if m:
            cur = m.group(1)
        if line.startswith("#if"):
            st.append(line)
        elif line.startswith("#else"):
            st[-1] = st[-1].replace("#ifdef", "#ifndef") if st[-1].startswith("#ifdef") else st[-1].replace("#ifndef", "#ifdef")
        elif line.startswith("#endif"):
            st.pop()
        elif line.startswith("void E_"):
            g.setdefault(cur, []).append((tuple(st), line))
    return g


def use_alone(ck, root, td):
    """each header is the only library header of a program that calls its
    routines on array types from another namespace"""
    com = open(os.path.join(VERIF, "drivers", "common.hpp")).read()
    jobs = []
    for h, ls in sorted(groups().items()):
        p = [d + "/" + h for d in ("tlapack/blas", "tlapack/lapack") if os.path.exists(os.path.join(root, d, h))]
        if not p:
            continue
        pre = com.replace('#include "all_headers.inc"\n', '#include "%s"\n' % p[0])
        body = "".join("%s\n%s\n%s\n" % ("\n".join(st), l, "\n".join("#endif" for _ in st)) for st, l in ls)
        f = os.path.join(td, "use_%s.cpp" % h)
        open(f, "w").write(pre + "\nnamespace drv {\n" + body + "\n}\n")
        for sc in ("double", "std::complex<double>"):
            jobs.append((p[0], sc, f, len(ls)))

    def one(j):
        h, sc, f, n = j
        cmd = [CLANG, "-fsyntax-only", "-std=c++17", "-DARCH", "-w", "-DNDEBUG", "-DTLAPACK_CHECK_INPUT", "-ferror-limit=0", "-I" + root, "-I" + os.path.join(VERIF, "drivers"), "-DSCALAR=" + sc, f]
        if "complex" not in sc:
            cmd.insert(1, "-DDRV_REAL")
        r = subprocess.run(cmd, capture_output=True, text=True)
        return j, r.returncode, r.stderr
    n = 0
    with ThreadPoolExecutor(8) as p:
        for (h, sc, f, k), rc, err in p.map(one, jobs):
            if rc == 0:
                n += k
                continue
            es = [e for e in re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)]
            if not es:
                raise Broken("clang failed without a diagnosis: " + err[-500:])
            for e in es[:3]:
                ck.violation("header-not-usable-alone", "%s:%s" % (rel(e[0]), e[1]), "a program that includes only %s and calls its routines does not compile (%s): %s" % (h, sc, e[2]), key=rel(e[0]))
    ck.floor("headers used alone", len(jobs) // 2, 180)
    return n


def run(ck):
    # a copy of the include directory alone: what is installed
    global ROOT
    ROOT = root = os.path.realpath(tmpdir()) + "/inst/include"
    shutil.copytree(os.path.realpath(REPO) + "/include", root)
    hdrs = sorted(h for h in glob.glob(root + "/tlapack/**/*.hpp", recursive=True))
    ck.floor("headers", len(hdrs), 240)
    td = tmpdir()
    stds = ["c++17", "c++20"]
    jobs = []
    plugin = root + "/tlapack/plugins/legacyArray.hpp"
    for i, h in enumerate(hdrs):
        for std in stds:
            src = os.path.join(td, "h%d_%s.cpp" % (i, std[3:]))
            with open(src, "w") as f:
                # twice: include guards
                f.write('#include "%s"\n#include "%s"\n#include "%s"\n' % (plugin, h, h))
            jobs.append((h, std, src))
    ex = exporter()

    def one(j):
        h, std, src = j
        out = src[:-4] + ".json"
        r = subprocess.run([ex, "--root", root, "--out", out, src, "--", "-std=" + std, "-I" + root, "-w"], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            return (h, std, None, r.stdout + r.stderr)
        d = load(out)
        os.unlink(out)
        inv = {(d["files"][t["file"]], t["n"], t["np"], t["line"]) for t in d["templates"]}
        odr = [(d["files"][o["file"]], o["line"], o["n"], o["what"]) for o in d["odr"]]
        return (h, std, (inv, odr, d["nfundef"]), None)
    with ThreadPoolExecutor(8) as p:
        res = list(p.map(one, jobs))
    skipped = set()
    own = {}
    nodr = 0
    ok = 0
    good = []
    for h, std, r, err in res:
        if r is None:
            m = THIRD.search(err)
            if m and re.match(r"(starpu|experimental/mdspan|mdspan|Eigen/|quadmath\.h|mpreal|cuda|cublas)", m.group(1)) and not os.path.exists(os.path.join(root, m.group(1))) and not re.search(r"error: (?!'[^']+' file not found)", err):
                skipped.add((h, m.group(1)))
                continue
            fe = first_error(err)
            if "/plugins/eigen" in h or "/starpu/" in h or "/plugins/starpu" in h or "/plugins/mdspan" in h:
                skipped.add((h, "third party"))
                continue
            ck.violation("header-does-not-stand-alone", "%s:%s" % (rel(fe[0]), fe[1]) if fe else rel(h),
                         "header %s included alone after the plugin header (%s) does not compile: %s" % (rel(h), std, fe[2] if fe else err[-300:]), key=rel(h))
            continue
        ok += 1
        inv, odr, nf = r
        nodr += nf
        if h not in own:
            good.append(h)
        own.setdefault(h, set()).update(x for x in inv if x[0] == h)
        for f, l, n, w in odr:
            ck.violation("non-inline-definition", "%s:%d (%s)" % (rel(f), l, n), "header defines the %s '%s' with external linkage and without inline: two translation units including it do not link" % (w, n))
    ck.floor("stand-alone compilations", ok + len(ck.viol), 300)
    # all headers together, both orders; every template definition must still be there
    legacy_free = [h for h in good if not re.search(r"/plugins/(?!legacyArray|stdvector)", h)]
    together = 0
    for name, lst in (("sorted", legacy_free), ("reverse", legacy_free[::-1])):
        src = os.path.join(td, "all_%s.cpp" % name)
        with open(src, "w") as f:
            f.write('#include "%s"\n' % plugin)
            for h in lst:
                f.write('#include "%s"\n' % h)
        out = src + ".json"
        r = subprocess.run([ex, "--root", root, "--out", out, src, "--", "-std=c++17", "-I" + root, "-w"], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            fe = first_error(r.stdout + r.stderr)
            ck.violation("headers-conflict", "%s:%s" % (rel(fe[0]), fe[1]) if fe else name, "all headers in %s order do not compile together: %s" % (name, fe[2] if fe else (r.stdout + r.stderr)[-300:]))
            continue
        d = load(out)
        inv = {(d["files"][t["file"]], t["n"], t["np"], t["line"]) for t in d["templates"]}
        for h in lst:
            for x in sorted(own[h] - inv):
                ck.violation("definition-lost", "%s:%d (%s)" % (rel(h), x[3], x[1]), "'%s' disappears when the headers are included together in %s order (include guard shared with another header)" % (x[1], name))
            together += len(own[h])
    used = use_alone(ck, root, td)
    ck.cov.update(routines_called_with_their_header_alone=used, explanation="type-checking of every header alone and together; linkage of every definition in the headers",
                  headers=len(hdrs), compilations=ok, skipped_third_party=sorted("%s needs %s" % (rel(a), b) for a, b in skipped), function_definitions_seen=nodr, template_definitions_checked_together=together,
                  samples=[rel(h) for h in good[:5]])
    ck.assume += ["clang 18's acceptance stands for a conforming C++17/20 compiler"]
