"""Shared frame of the checks: exporting the resolved syntax trees of /repo,
collecting violations, writing evidence, exit codes."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TLAPACK_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CLANG = "/usr/bin/clang++-18"


class Broken(Exception):
    """the analysis itself cannot give an answer"""


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="run-", dir=base)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def exporter():
    p = os.path.join(VERIF, "build", "exporter")
    r = subprocess.run(["bash", os.path.join(VERIF, "exporter", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(p):
        raise Broken("exporter does not build: " + r.stderr[-2000:])
    return p


def flags(scalar="double", layout="ColMajor", std="c++20", extra=()):
    real = "complex" not in scalar
    f = ["-std=" + std, "-DNDEBUG", "-DTLAPACK_CHECK_INPUT", "-I" + REPO + "/include",
         "-I" + os.path.join(VERIF, "drivers"), "-DLAYOUT=" + layout, "-DSCALAR=" + scalar, "-w"]
    if real:
        f.append("-DDRV_REAL")
    return f + list(extra)


class CompileError(Exception):
    def __init__(s, msg, where=None):
        Exception.__init__(s, msg)
        s.where = where


def export(driver="all.cpp", roots=None, fl=None, **kw):
    """export a driver; returns the path of the JSON dump"""
    ex = exporter()
    fl = fl or flags(**kw)
    drv = driver if os.path.isabs(driver) else os.path.join(VERIF, "drivers", driver)
    key = hashlib.sha1(repr((drv, fl)).encode()).hexdigest()[:12]
    out = os.path.join(tmpdir(), "exp-" + key + ".json")
    if not os.path.exists(out):
        cmd = [ex]
        for r in roots or [os.path.realpath(REPO) + "/include"]:
            cmd += ["--root", r]
        cmd += ["--main", os.path.join(VERIF, "drivers"), "--out", out + ".tmp", drv, "--"] + fl
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out + ".tmp"):
            raise CompileError((r.stdout + r.stderr)[-6000:])
        os.rename(out + ".tmp", out)
    return out


def exports(specs):
    """several exports in parallel: list of kwargs"""
    exporter()
    with ThreadPoolExecutor(8) as p:
        return list(p.map(lambda kw: export(**kw), specs))


def first_error(msg):
    m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", msg, re.M)
    if m:
        return m.group(1), int(m.group(2)), m.group(3)
    return None


def rel(path):
    rp = os.path.realpath(REPO)
    if path.startswith(rp + "/"):
        return path[len(rp) + 1:]
    return path


class Check:
    def __init__(s, pid, level="other"):
        s.pid = pid
        s.level = level
        s.viol = []
        s.known = []
        s.cov = {}
        s.assume = []
        s.t0 = time.time()
        s.kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]

    def violation(s, rule, where, msg, key=None):
        """where: 'file:line (function)'; key identifies the construct for known findings"""
        v = {"rule": rule, "where": where, "msg": msg, "key": key or where}
        for k in s.kf:
            if k["property"] == s.pid and k["rule"] == rule and re.fullmatch(k["key"], v["key"]):
                s.known.append((k, v))
                return
        if any(w["rule"] == rule and w["where"] == where and w["msg"] == msg for w in s.viol):
            return
        s.viol.append(v)

    def broken(s, why):
        raise Broken(why)

    def floor(s, what, n, least):
        s.cov.setdefault("floors", {})[what] = [n, least]
        if n < least:
            raise Broken("only %d %s analysed, at least %d expected" % (n, what, least))

    def finish(s):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": s.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": s.level,
              "coverage": s.cov, "assumptions": s.assume, "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol)}
        if s.known:
            ev["coverage"]["known_findings"] = [v["where"] + ": " + v["msg"] for _, v in s.known]
        if s.viol:
            ev["coverage"]["violation_samples"] = s.viol[:20]
        tmp = os.path.join(VERIF, "evidence", s.pid + ".json")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        said = []
        for k, v in s.known:
            if k in said:
                continue
            said.append(k)
            print("KNOWN-FINDING: property=%s %s %s" % (s.pid, v["where"], v["msg"]))
        if s.viol:
            rp = os.path.join(VERIF, "evidence", s.pid + ".violations.txt")
            with open(rp, "w") as f:
                for v in s.viol:
                    f.write("rule %s\n  at %s\n  %s\n\n" % (v["rule"], v["where"], v["msg"]))
            for v in s.viol[:20]:
                print("rule %s at %s: %s" % (v["rule"], v["where"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        print("OK property=%s %s" % (s.pid, json.dumps({k: v for k, v in s.cov.items() if isinstance(v, (int, str))})[:600]))
        return 0


def walk(x, fn, par=None):
    """pre-order walk over dict nodes; fn returns False to prune"""
    if isinstance(x, list):
        for y in x:
            walk(y, fn, par)
    elif isinstance(x, dict):
        if "k" in x:
            if fn(x, par) is False:
                return
            par = x
        for y in x.values():
            if isinstance(y, (dict, list)):
                walk(y, fn, par)


def load(path):
    return json.load(open(path))


def is_driver(path):
    return path.startswith(os.path.join(VERIF, "drivers"))
