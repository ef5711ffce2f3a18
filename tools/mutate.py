"""exploration aid: random one-line changes of a header, and what a check says
   mutate.py FILE(s, relative to include/tlapack) N SEED CHECK [names]"""
import sys, os, random, re, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
files, n, seed, chk = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
random.seed(seed)
OPS = [(r"conj\(", "("), (r"real\(", "("), (r" \+ ", " - "), (r" - ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" != ", " == "), (r"\+ 1", "+ 2"), (r" - 1", ""),
       (r"\((\w), (\w)\)", r"(\2, \1)"), (r"alpha \* ", ""), (r"\+= ", "= "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= beta", "*= alpha"), (r"CONJ_TRANS", "TRANSPOSE"), (r"NO_TRANS", "CONJ_TRANS"),
       (r"= 0;", "= 1;"), (r"UNIT_DIAG", "NON_UNIT_DIAG"), (r"LEFT_SIDE", "RIGHT_SIDE"), (r"UPPER_TRIANGLE", "LOWER_TRIANGLE"), (r"Uplo::Upper", "Uplo::Lower"), (r"Op::ConjTrans", "Op::Trans"), (r"-one", "one"), (r"\bm\b", "n"), (r"\bk\b", "n"), (r" \* ", " / "), (r"min\(", "max("), (r"\bi\b", "j"), (r"-- ?> 0", "-- > 1")]
cands = []
for f in files:
    L = open("/repo/include/tlapack/" + f).read().split("\n")
    code = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith(("*", "/", "#", "template", "using", "TLAPACK", "tlapack_check", "if constexpr")):
            continue
        for a, b in OPS:
            for m in re.finditer(a, l.split("//")[0]):
                new = l[:m.start()] + re.sub(a, b, m.group(0), 1) + l[m.end():]
                if new != l:
                    cands.append((f, i, l, new))
rx = os.environ.get("ONLY")
if rx:
    cands = [c for c in cands if re.search(rx, c[2][:0] + c[2]) and c[2].replace(" ", "") and re.sub(rx, "", c[2], 0) != c[2] and re.search(rx, c[2])]
    cands = [c for c in cands if len(re.findall(rx, c[2])) != len(re.findall(rx, c[3]))]
random.shuffle(cands)
def run(c):
    f, i, l, new = c
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/repo/include")
        shutil.copytree("/repo/src", d + "/repo/src")
        shutil.copytree("/repo/test/include", d + "/repo/test/include")
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "run-*", "seeded", "*.json.bak"))
        p = d + "/repo/include/tlapack/" + f
        L = open(p).read().split("\n")
        L[i] = new
        open(p, "w").write("\n".join(L))
        r = subprocess.run(["python3", "checks/run.py", chk], cwd=d + "/verif", env={**os.environ, "TLAPACK_REPO": d + "/repo"}, capture_output=True, text=True)
        v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION") or "differs" in x or "VIOL" in x]
        ev = {}
        try:
            ev = json.load(open(d + "/verif/evidence/%s.json" % chk))["coverage"]
        except Exception:
            pass
        return c, r.returncode, v[:1], ev.get("status"), (r.stdout + r.stderr)[-200:] if r.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
par = int(os.environ.get("PAR", "2"))
tot = {}
with ThreadPoolExecutor(par) as ex:
    for c, rc, v, st, t in ex.map(run, cands[:n]):
        tot[rc] = tot.get(rc, 0) + 1
        if rc != 1:
            print(rc, "%s:%d" % (c[0], c[1] + 1), "|", c[2].strip()[:70], "=>", c[3].strip()[:70], st, t[-150:].replace("\n", " ") if rc != 3 else t[-100:])
print(tot)
